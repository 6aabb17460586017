// Runs sequences of operations of the HDF5 layer and prints what they returned. Every operation is one line of input;
// "end" answers everything so far.
#include "h5cpp/h5readwrite.h"

#include <cstdint>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using h5::H5ReadWrite;
using Type = H5ReadWrite::DataType;

static const char* names[] = { "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8" };

static std::string unquote(const std::string& w)
{
  // Hexadecimal, to have spaces, nothing at all, ...
  std::string s;
  for (size_t i = 1; i + 1 < w.size(); i += 2) s += (char)std::stoi(w.substr(i, 2), nullptr, 16);
  return s;
}

static std::string quote(const std::string& s)
{
  std::string w = "x";
  char b[3];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    w += b;
  }
  return w;
}

template <typename N>
static std::vector<N> list(const std::string& w)
{
  std::vector<N> v;
  std::istringstream s(w);
  std::string p;
  while (std::getline(s, p, ','))
    if (!p.empty() && p != "-") v.push_back((N)std::stoll(p));
  return v;
}

template <typename T>
static std::vector<T> values(const std::string& w)
{
  std::vector<T> v;
  std::istringstream s(w);
  std::string p;
  while (std::getline(s, p, ',')) {
    if (p.empty() || p == "-") continue;
    if (std::is_floating_point<T>::value)
      v.push_back((T)std::strtod(p.c_str(), nullptr));
    else if (p[0] == '-')
      v.push_back((T)std::strtoll(p.c_str(), nullptr, 10));
    else
      v.push_back((T)std::strtoull(p.c_str(), nullptr, 10));
  }
  return v;
}

template <typename T>
static std::string text(T x)
{
  char b[64];
  if (std::is_floating_point<T>::value)
    snprintf(b, sizeof b, "%.17g", (double)x);
  else if (std::is_signed<T>::value)
    snprintf(b, sizeof b, "%lld", (long long)x);
  else
    snprintf(b, sizeof b, "%llu", (unsigned long long)x);
  return b;
}

template <typename T>
static std::string text(const std::vector<T>& v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + text(v[i]);
  return s + "]";
}

static std::unique_ptr<H5ReadWrite> file;

template <typename T>
struct Do
{
  static std::string run(const std::vector<std::string>& w, Type type)
  {
    auto& op = w[0];
    auto arg = [&](size_t i) { return unquote(w[i]); };
    if (op == "write") // by the type of the vector, of the pointer or by number
    {
      auto v = values<T>(w[5]);
      v.shrink_to_fit();
      auto dims = list<int>(w[4]);
      if (w[6] == "v") return std::to_string(file->writeData(arg(2), arg(3), dims, v));
      if (w[6] == "p") return std::to_string(file->writeData(arg(2), arg(3), dims, (const T*)v.data()));
      return std::to_string(file->writeData(arg(2), arg(3), dims, type, (const void*)v.data()));
    }
    if (op == "create") return std::to_string(file->createDataSet(arg(2), arg(3), list<int>(w[4]), type, list<int>(w[5])));
    if (op == "update") {
      auto v = values<T>(w[6]);
      v.shrink_to_fit();
      auto start = list<size_t>(w[4]), counts = list<size_t>(w[5]);
      return std::to_string(
        file->updateData(arg(2), list<int>(w[3]), type, v.data(), w[4] == "-" ? nullptr : start.data(), w[5] == "-" ? nullptr : counts.data()));
    }
    if (op == "attr") return std::to_string(file->setAttribute(arg(2), arg(3), values<T>(w[4])[0]));
    if (op == "attrs") return std::to_string(file->setAttribute(arg(2), arg(3), values<T>(w[4])));
    if (op == "read1") return text(file->readData<T>(arg(2)));
    if (op == "readn") {
      std::vector<int> dims = { -7 };
      auto v = file->readData<T>(arg(2), dims);
      return text(v) + text(dims);
    }
    if (op == "readp") {
      std::vector<T> v(std::stoi(w[3]));
      v.shrink_to_fit();
      bool ok = file->readData(arg(2), v.data());
      return std::to_string(ok) + (ok ? text(v) : "");
    }
    if (op == "slab") {
      std::vector<T> v(std::stoi(w[6]), (T)99);
      v.shrink_to_fit();
      auto strides = list<int>(w[3]);
      auto start = list<size_t>(w[4]), counts = list<size_t>(w[5]);
      bool ok = file->readData(arg(2), type, v.data(), w[3] == "-" ? nullptr : strides.data(), w[4] == "-" ? nullptr : start.data(),
                               w[5] == "-" ? nullptr : counts.data());
      return std::to_string(ok) + (ok ? text(v) : "");
    }
    if (op == "getattr") {
      bool ok = false;
      T v = file->attribute<T>(arg(2), arg(3), &ok);
      return std::to_string(ok) + (ok ? text(v) : "");
    }
    return "unknown";
  }
};

static std::string texts(const std::vector<std::string>& v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + quote(v[i]);
  return s + "]";
}

static std::string run(const std::vector<std::string>& w)
{
  auto& op = w[0];
  auto arg = [&](size_t i) { return unquote(w[i]); };
  if (op == "open") {
    file.reset();
    file.reset(new H5ReadWrite(w[1], w[2] == "w" ? H5ReadWrite::OpenMode::WriteOnly : H5ReadWrite::OpenMode::ReadOnly));
    return "-";
  }
  if (op == "close") {
    file->close();
    return "-";
  }
  if (op == "destroy") {
    file.reset();
    return "-";
  }
  if (op == "group") return std::to_string(file->createGroup(arg(1)));
  if (op == "attrstr") {
    std::string v = arg(3);
    return std::to_string(file->setAttribute(arg(1), arg(2), v.c_str()));
  }
  if (op == "children") {
    bool ok = false;
    auto v = file->children(arg(1), &ok);
    return std::to_string(ok) + texts(v);
  }
  if (op == "datasets") return texts(file->allDataSets(arg(1)));
  if (op == "info") {
    auto p = arg(1);
    return std::to_string(file->isGroup(p)) + std::to_string(file->isDataSet(p)) + " " + H5ReadWrite::dataTypeToString(file->dataType(p)) + " " +
           std::to_string(file->dimensionCount(p)) + text(file->getDimensions(p)) + " " + std::to_string(file->hasAttribute(p));
  }
  if (op == "attrinfo") return std::to_string(file->hasAttribute(arg(1), arg(2))) + " " + H5ReadWrite::dataTypeToString(file->attributeType(arg(1), arg(2)));
  if (op == "getstr") {
    bool ok = false;
    auto v = file->attribute<std::string>(arg(1), arg(2), &ok);
    return std::to_string(ok) + (ok ? quote(v) : "");
  }
  int t = -1;
  for (int i = 0; i < 10; i++)
    if (w[1] == names[i]) t = i;
  auto type = (Type)t;
  switch (t) {
    case 0: return Do<char>::run(w, type);
    case 1: return Do<short>::run(w, type);
    case 2: return Do<int>::run(w, type);
    case 3: return Do<long long>::run(w, type);
    case 4: return Do<unsigned char>::run(w, type);
    case 5: return Do<unsigned short>::run(w, type);
    case 6: return Do<unsigned int>::run(w, type);
    case 7: return Do<unsigned long long>::run(w, type);
    case 8: return Do<float>::run(w, type);
    case 9: return Do<double>::run(w, type);
  }
  return "unknown";
}

int main()
{
  if (!getenv("MC_VERBOSE")) {
    // The layer reports every failed call
    std::cerr.setstate(std::ios::failbit);
  }
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line == "end") {
      file.reset();
      fputs("END\n", stdout);
      fflush(stdout);
      continue;
    }
    std::istringstream s(line);
    std::vector<std::string> w;
    std::string p;
    while (s >> p) w.push_back(p);
    printf("R %s\n", run(w).c_str());
  }
}
