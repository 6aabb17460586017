// Runs sequences of operations on the readers and prints what they returned, in a canonical form.
//
// Without MC_SCHED: reads any number of scenarios from stdin and runs each of them once.
// With MC_SCHED: reads one scenario and explores its schedules; prints every distinct outcome.
#include "stempy/electron.h"
#include "stempy/electronthresholds.h"
#include "stempy/image.h"
#include "stempy/reader.h"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#ifdef MC_SCHED
#include "sched_rt.h"
#endif
#ifdef MC_MPI
#include "mpi_ranks.h"
#endif

using namespace stempy;

#ifdef MC_SCHED
using Guard = mc::Ignore;
#else
struct Guard
{
  static std::mutex& m()
  {
    static std::mutex mutex;
    return mutex;
  }
  Guard() { m().lock(); }
  ~Guard() { m().unlock(); }
};
#endif

struct Op
{
  std::vector<std::string> words;
};

struct Scenario
{
  std::string kind;
  int version = 5;
  int threads = 1;
  std::vector<std::string> files;
  std::vector<Op> ops;
  std::map<std::string, std::string> settings;
};

static uint32_t crcTable[256];
static void initCrc()
{
  for (uint32_t i = 0; i < 256; i++) {
    uint32_t c = i;
    for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
    crcTable[i] = c;
  }
}
// The pixels are read here, by instrumented code
static uint32_t crc(const uint16_t* data, size_t n)
{
  uint32_t c = 0xFFFFFFFFu;
  for (size_t i = 0; i < n; i++) {
    uint16_t v = data[i];
    c = crcTable[(c ^ (v & 0xFF)) & 0xFF] ^ (c >> 8);
    c = crcTable[(c ^ (v >> 8)) & 0xFF] ^ (c >> 8);
  }
  return c ^ 0xFFFFFFFFu;
}

static std::string describe(const Block& b)
{
  if (!b.data) return "none";
  char buf[300];
  auto& h = b.header;
  std::string s;
  size_t pixels = (size_t)h.frameDimensions.first * h.frameDimensions.second;
  snprintf(buf, sizeof buf, "v%u scan%u frame%u scandims%ux%u framedims%ux%u n%u", h.version, h.scanNumber, h.frameNumber, h.scanDimensions.first,
           h.scanDimensions.second, h.frameDimensions.first, h.frameDimensions.second, h.imagesInBlock);
  s = buf;
  s += " complete";
  for (size_t i = 0; i < h.complete.size(); i++) s += h.complete[i] ? "1" : "0";
  for (size_t i = 0; i < h.imageNumbers.size(); i++) {
    uint32_t c = i < h.imagesInBlock ? crc(b.data.get() + i * pixels, pixels) : 0;
    snprintf(buf, sizeof buf, " %u:%08x", h.imageNumbers[i], c);
    s += buf;
  }
  return s;
}

static std::string join(std::vector<std::string> v, bool sort)
{
  if (sort) std::sort(v.begin(), v.end());
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? " | " : "") + v[i];
  return s + "]";
}

struct Collector
{
  std::vector<std::string> blocks;
  void operator()(Block& b)
  {
    std::string s = describe(b);
    Guard g;
    blocks.push_back(s);
  }
};

static std::string num(double v)
{
  char buf[40];
  snprintf(buf, sizeof buf, "%.17g", v);
  return buf;
}

static std::string events(const ElectronCountedData& d)
{
  std::string s = "scandims" + std::to_string(d.scanDimensions.first) + "x" + std::to_string(d.scanDimensions.second) + " framedims" +
                  std::to_string(d.frameDimensions.first) + "x" + std::to_string(d.frameDimensions.second);
  auto& m = d.metadata;
  s += " bg=" + num(m.backgroundThreshold) + " xray=" + num(m.xRayThreshold) + " optmean=" + num(m.optimizedMean) + " min=" + num(m.minSample) +
       " max=" + num(m.maxSample) + " mean=" + num(m.mean) + " var=" + num(m.variance);
  s += " events";
  for (auto& pos : d.data) {
    std::vector<std::string> frames;
    for (auto& f : pos) {
      std::string t;
      for (auto e : f) t += (t.empty() ? "" : ",") + std::to_string(e);
      frames.push_back(t);
    }
    std::sort(frames.begin(), frames.end());
    s += " {";
    for (size_t i = 0; i < frames.size(); i++) s += (i ? ";" : "") + frames[i];
    s += "}";
  }
  return s;
}

static std::string error(const char* type, const char* what)
{
  std::string s = std::string("error ") + type + ": " + what;
  std::replace(s.begin(), s.end(), '\n', ' ');
  return s;
}

template <typename F>
static std::string guarded(F f)
{
  try {
    return f();
  } catch (const std::logic_error& e) {
    if (dynamic_cast<const std::invalid_argument*>(&e)) return error("invalid_argument", e.what());
    if (dynamic_cast<const std::out_of_range*>(&e)) return error("out_of_range", e.what());
    return error("unexpected logic_error", e.what());
  } catch (const std::runtime_error& e) {
    return error("runtime_error", e.what());
  } catch (const EofException& e) {
    return error("EofException", "");
  } catch (const std::exception& e) {
    return error("unexpected exception", e.what());
  }
}

struct Reader
{
  std::unique_ptr<StreamReader> st;
  std::unique_ptr<SectorStreamReader> seq;
  SectorStreamReader* base = nullptr;
  SectorStreamThreadedReader* thr = nullptr;
  SectorStreamMultiPassThreadedReader* mp = nullptr;

  explicit Reader(const Scenario& s)
  {
    if (s.kind == "stream") {
      st.reset(new StreamReader(s.files, s.version));
    } else if (s.kind == "seq") {
      seq.reset(new SectorStreamReader(s.files, s.version));
      base = seq.get();
    } else if (s.kind == "thr") {
      seq.reset(thr = new SectorStreamThreadedReader(s.files, s.version, s.threads));
      base = thr;
    } else if (s.kind == "mp") {
      seq.reset(mp = new SectorStreamMultiPassThreadedReader(s.files, s.threads));
      base = mp;
    } else {
      throw std::logic_error("unknown reader");
    }
  }

  Block read() { return st ? st->read() : base->read(); }

  std::string run(const std::vector<std::string>& w)
  {
    auto& op = w[0];
    if (op == "read") return describe(read());
    if (op == "readn") {
      std::vector<std::string> v;
      for (int i = 0; i < std::stoi(w[1]); i++) v.push_back(describe(read()));
      return join(v, false);
    }
    if (op == "drain") {
      std::vector<std::string> v;
      auto failed = guarded([&]() {
        while (v.size() < 100000) {
          Block b = read();
          if (!b.data) break;
          v.push_back(describe(b));
        }
        return std::string();
      });
      return join(v, false) + (failed.empty() ? "" : " " + failed);
    }
    if (op == "iterate") { // through the iterators
      std::vector<std::string> v;
      if (st) {
        for (auto it = st->begin(); it != st->end(); ++it) v.push_back(describe(*it));
      } else {
        for (auto it = base->begin(); it != base->end(); ++it) v.push_back(describe(*it));
      }
      return join(v, false);
    }
    if (op == "reset") {
      if (st) st->reset();
      else base->reset();
      return "ok";
    }
    if (op == "captured") return num(base->dataCaptured());
    if (op == "readall") {
      Collector c;
      auto failed = guarded([&]() {
        auto f = mp ? mp->readAll(c) : thr->readAll(c);
        f.get();
        return std::string();
      });
      return join(c.blocks, true) + (failed.empty() ? "" : " " + failed);
    }
    if (op == "readall-throw") { // a consumer that fails
      int n = std::stoi(w[1]);
      std::atomic<int> calls{ 0 };
      auto f = [&](Block& b) {
        describe(b);
        if (calls++ == n) throw std::runtime_error("consumer failed");
      };
      auto done = mp ? mp->readAll(f) : thr->readAll(f);
      done.get();
      return "ok";
    }
    if (op == "load") {
      std::vector<uint32_t> idx;
      for (size_t i = 2; i < w.size(); i++) idx.push_back(std::stoul(w[i]));
      std::vector<std::string> v;
      for (auto& b : mp->loadFrames(std::stoul(w[1]), idx)) v.push_back(describe(b));
      return join(v, false);
    }
    if (op == "numframes") return std::to_string(mp->numFramesPerScan());
    if (op == "scandims") {
      auto d = mp->scanDimensions();
      return std::to_string(d.first) + "x" + std::to_string(d.second);
    }
    if (op == "count") {
      ElectronCountOptions o;
      std::vector<float> dark, gain;
      std::map<std::string, std::string> a;
      for (size_t i = 1; i < w.size(); i++) {
        auto e = w[i].find('=');
        a[w[i].substr(0, e)] = w[i].substr(e + 1);
      }
      size_t pixels = (size_t)FRAME_DIMENSIONS.first * FRAME_DIMENSIONS.second;
      if (a.count("blocks")) o.thresholdNumberOfBlocks = std::stoi(a["blocks"]);
      if (a.count("samples")) o.numberOfSamples = std::stoi(a["samples"]);
      if (a.count("bgsigma")) o.backgroundThresholdNSigma = std::stod(a["bgsigma"]);
      if (a.count("xraysigma")) o.xRayThresholdNSigma = std::stod(a["xraysigma"]);
      if (a.count("scanw")) o.scanDimensions.first = std::stoul(a["scanw"]);
      if (a.count("scanh")) o.scanDimensions.second = std::stoul(a["scanh"]);
      if (a.count("rowdark")) o.applyRowDarkSubtraction = a["rowdark"] == "1";
      if (a.count("usemean")) o.applyRowDarkUseMean = a["usemean"] == "1";
      if (a.count("dark")) dark.assign(pixels, std::stof(a["dark"])), o.darkReference = dark.data();
      if (a.count("gain")) gain.assign(pixels, std::stof(a["gain"])), o.gain = gain.data();
      return events(mp ? electronCount(mp, o) : electronCount(thr, o));
    }
    if (op == "classic") { // sequential electron counting: background, xray
      ElectronCountOptionsClassic o;
      o.backgroundThreshold = std::stod(w[1]);
      o.xRayThreshold = std::stod(w[2]);
      return events(st ? electronCount(st->begin(), st->end(), o) : electronCount(base->begin(), base->end(), o));
    }
    if (op == "stem") { // scanw scanh centerx centery inner outer ...
      std::vector<int> in, out;
      for (size_t i = 5; i + 1 < w.size(); i += 2) in.push_back(std::stoi(w[i])), out.push_back(std::stoi(w[i + 1]));
      if (w.size() % 2 == 0) in.push_back(std::stoi(w.back())); // one without a partner
      Dimensions2D scan = { (uint32_t)std::stoul(w[1]), (uint32_t)std::stoul(w[2]) };
      Coordinates2D center = { std::stoi(w[3]), std::stoi(w[4]) };
      auto images = st ? createSTEMImages(st->begin(), st->end(), in, out, scan, center)
                       : createSTEMImages(base->begin(), base->end(), in, out, scan, center);
      std::string s;
      for (auto& im : images) {
        s += std::to_string(im.dimensions.first) + "x" + std::to_string(im.dimensions.second) + ":";
        for (size_t i = 0; i < (size_t)im.dimensions.first * im.dimensions.second; i++) s += " " + std::to_string(im.data.get()[i]);
        s += "; ";
      }
      return s;
    }
    if (op == "radial") { // scanw scanh centerx centery
      Dimensions2D scan = { (uint32_t)std::stoul(w[1]), (uint32_t)std::stoul(w[2]) };
      Coordinates2D center = { std::stoi(w[3]), std::stoi(w[4]) };
      auto r = st ? radialSum(st->begin(), st->end(), scan, center) : radialSum(base->begin(), base->end(), scan, center);
      std::string s = std::to_string(r.dimensions.first) + "x" + std::to_string(r.dimensions.second) + "x" + std::to_string(r.radii) + ":";
      for (size_t i = 0; i < (size_t)r.dimensions.first * r.dimensions.second * r.radii; i++) s += " " + std::to_string(r.data.get()[i]);
      return s;
    }
#ifdef MC_H5
    if (op == "tohdf5") {
      base->toHdf5(w[1], w[2] == "frame" ? SectorStreamReader::H5Format::Frame : SectorStreamReader::H5Format::DataCube);
      return "ok";
    }
#endif
    throw std::logic_error("unknown operation " + op);
  }
};

static std::string runOps(const Scenario& s)
{
  std::string out;
  std::unique_ptr<Reader> r;
  auto made = guarded([&]() {
    r.reset(new Reader(s));
    return std::string("ok");
  });
  out += "new " + made + "\n";
  if (r) {
    for (auto& op : s.ops) {
      out += op.words[0] + " " + guarded([&]() {
        if (op.words[0] == "destroy") {
          r.reset();
          return std::string("ok");
        }
        return r->run(op.words);
      }) + "\n";
    }
  }
  guarded([&]() {
    r.reset();
    return std::string();
  });
  return out;
}

static std::string runScenario(const Scenario& s)
{
#ifdef MC_MPI
  // All ranks do the same; their results one after the other
  auto n = s.settings.find("ranks");
  if (n != s.settings.end()) {
    std::vector<std::string> outs(std::stoi(n->second));
    ranks::run(outs.size(), [&](int rank) {
      std::string o = runOps(s);
      Guard g;
      outs[rank] = o;
    });
    std::string all;
    for (auto& o : outs) all += o;
    return all;
  }
#endif
  return runOps(s);
}

static bool readScenario(std::istream& in, Scenario& s)
{
  std::string line;
  s = Scenario();
  bool any = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w)) continue;
    any = true;
    if (w == "end") return true;
    if (w == "reader") l >> s.kind >> s.version >> s.threads;
    else if (w == "file") {
      std::string f;
      l >> f;
      s.files.push_back(f);
    } else if (w == "op") {
      Op op;
      while (l >> w) op.words.push_back(w);
      s.ops.push_back(op);
    } else if (w == "set") {
      std::string k, v;
      l >> k >> v;
      s.settings[k] = v;
    }
  }
  return any;
}

int main()
{
  initCrc();
  std::ios::sync_with_stdio(false);
  Scenario s;
#ifdef MC_SCHED
  if (!readScenario(std::cin, s)) return 2;
  mc::Limits l;
  auto get = [&](const char* k, const char* d) { return s.settings.count(k) ? s.settings[k] : std::string(d); };
  l.bound = std::stoi(get("bound", "2"));
  l.maxSeconds = std::stod(get("seconds", "0"));
  l.part = std::stoi(get("part", "0"));
  l.parts = std::stoi(get("parts", "1"));
  if (s.settings.count("random")) mc::setRandom(std::stoul(s.settings["random"]));
  if (s.settings.count("replay")) {
    std::istringstream r(s.settings["replay"]);
    std::string x;
    while (std::getline(r, x, ',')) l.replay.push_back(std::stoi(x));
    l.doReplay = true;
  }
  auto st = mc::explore([&]() { return runScenario(s); }, l);
  printf("STATS executions=%lu steps=%lu states=%lu pruned=%lu decisions=%lu threads=%lu exhaustive=%d\n", st.executions, st.steps, st.states,
         st.pruned, st.maxDecisions, st.maxThreads, (int)st.exhaustive);
  for (auto& o : st.outcomes) printf("OUTCOME %s\n%sEND\n", o.second.c_str(), o.first.c_str());
  fflush(stdout);
  _exit(0);
#else
  while (readScenario(std::cin, s)) {
    auto r = runScenario(s);
    printf("%sEND\n", r.c_str());
    fflush(stdout);
  }
  return 0;
#endif
}
