// The part of cereal (which is an empty git submodule here) that stempy uses: binary archives of numbers, pairs,
// arrays, vectors, maps and classes with their own serialize, or save and load.
#pragma once
#include <array>
#include <cstdint>
#include <istream>
#include <map>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace cereal {

struct Exception : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

enum class specialization
{
  member_serialize,
  member_load_save,
  non_member_serialize,
  non_member_load_save
};
template <class Archive, class T, specialization S>
struct specialize : std::false_type
{};

namespace detail {
template <class... T>
using void_type = void;
template <class A, class T, class = void>
struct MemberSerialize : std::false_type
{};
template <class A, class T>
struct MemberSerialize<A, T, void_type<decltype(std::declval<T&>().serialize(std::declval<A&>()))>> : std::true_type
{};
template <class A, class T, class = void>
struct MemberSave : std::false_type
{};
template <class A, class T>
struct MemberSave<A, T, void_type<decltype(std::declval<const T&>().save(std::declval<A&>()))>> : std::true_type
{};
template <class A, class T, class = void>
struct MemberLoad : std::false_type
{};
template <class A, class T>
struct MemberLoad<A, T, void_type<decltype(std::declval<T&>().load(std::declval<A&>()))>> : std::true_type
{};

template <int N>
struct Rank : Rank<N - 1>
{};
template <>
struct Rank<0>
{};
} // namespace detail

class BinaryOutputArchive
{
public:
  explicit BinaryOutputArchive(std::ostream& s) : m_stream(s) {}

  template <class... T>
  void operator()(const T&... t)
  {
    int dummy[] = { 0, (put(t, detail::Rank<3>()), 0)... };
    (void)dummy;
  }

  void saveBinary(const void* data, std::streamsize size)
  {
    if (m_stream.rdbuf()->sputn((const char*)data, size) != size) throw Exception("Failed to write");
  }

private:
  template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
  void put(const T& t, detail::Rank<3>)
  {
    saveBinary(&t, sizeof t);
  }
  template <class T>
  void put(const std::vector<T>& v, detail::Rank<3>)
  {
    (*this)((uint64_t)v.size());
    for (const T& x : v) (*this)(x);
  }
  template <class T, size_t N>
  void put(const std::array<T, N>& v, detail::Rank<3>)
  {
    for (const T& x : v) (*this)(x);
  }
  template <class K, class V, class C, class A>
  void put(const std::map<K, V, C, A>& m, detail::Rank<3>)
  {
    (*this)((uint64_t)m.size());
    for (auto& x : m) (*this)(x.first, x.second);
  }
  template <class T, std::enable_if_t<detail::MemberSerialize<BinaryOutputArchive, T>::value, int> = 0>
  void put(const T& t, detail::Rank<2>)
  {
    const_cast<T&>(t).serialize(*this);
  }
  template <class T, std::enable_if_t<detail::MemberSave<BinaryOutputArchive, T>::value, int> = 0>
  void put(const T& t, detail::Rank<1>)
  {
    t.save(*this);
  }
  template <class T>
  void put(const T& t, detail::Rank<0>)
  {
    save(*this, t);
  }

  std::ostream& m_stream;
};

class BinaryInputArchive
{
public:
  explicit BinaryInputArchive(std::istream& s) : m_stream(s) {}

  template <class... T>
  void operator()(T&&... t)
  {
    int dummy[] = { 0, (get(t, detail::Rank<3>()), 0)... };
    (void)dummy;
  }

  void loadBinary(void* data, std::streamsize size)
  {
    if (m_stream.rdbuf()->sgetn((char*)data, size) != size) throw Exception("Failed to read");
  }

private:
  uint64_t size()
  {
    uint64_t n;
    loadBinary(&n, sizeof n);
    return n;
  }
  template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
  void get(T& t, detail::Rank<3>)
  {
    loadBinary(&t, sizeof t);
  }
  template <class T>
  void get(std::vector<T>& v, detail::Rank<3>)
  {
    v.resize(size());
    for (T& x : v) (*this)(x);
  }
  template <class T, size_t N>
  void get(std::array<T, N>& v, detail::Rank<3>)
  {
    for (T& x : v) (*this)(x);
  }
  template <class K, class V, class C, class A>
  void get(std::map<K, V, C, A>& m, detail::Rank<3>)
  {
    m.clear();
    for (uint64_t i = 0, n = size(); i < n; i++) {
      K k;
      V v;
      (*this)(k, v);
      m.emplace_hint(m.end(), std::move(k), std::move(v));
    }
  }
  template <class T, std::enable_if_t<detail::MemberSerialize<BinaryInputArchive, T>::value, int> = 0>
  void get(T& t, detail::Rank<2>)
  {
    t.serialize(*this);
  }
  template <class T, std::enable_if_t<detail::MemberLoad<BinaryInputArchive, T>::value, int> = 0>
  void get(T& t, detail::Rank<1>)
  {
    t.load(*this);
  }
  template <class T>
  void get(T& t, detail::Rank<0>)
  {
    load(*this, t);
  }

  std::istream& m_stream;
};

} // namespace cereal
