// Stand-in for DARMA magistrate ("checkpoint"), which is not in this sandbox.
// It offers the part of its interface that vt uses, so that all of vt can be
// type-checked.  It is a small working serializer (sizer/packer/unpacker/
// footprinter over flat byte buffers), so templates instantiate as in real use.
#ifndef VERIF_STUB_CHECKPOINT_H
#define VERIF_STUB_CHECKPOINT_H
#include "checkpoint/detector.h"
#include <array>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <thread>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace checkpoint {

struct SERIALIZE_CONSTRUCT_TAG {};
using SerialByteType = char;
using BufferCallbackType = std::function<SerialByteType*(std::size_t)>;

struct SerializerBase {
  bool isSizing() const { return false; }
  bool isPacking() const { return false; }
  bool isUnpacking() const { return false; }
  bool isFootprinting() const { return false; }
  void addBytes(std::size_t) {}
  template <typename T> void countBytes(T const&) {}
  template <typename T> void skip(T const&) {}
  template <typename X> bool hasTraits() const { return false; }
};

struct Sizer : SerializerBase {
  bool isSizing() const { return true; }
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size += sz * n; }
  std::size_t getSize() const { return size; }
  std::size_t size = 0;
};
struct Packer : SerializerBase {
  explicit Packer(char* b) : buf(b), cur(b) {}
  bool isPacking() const { return true; }
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    if (sz * n) { std::memcpy(cur, p, sz * n); cur += sz * n; }
  }
  char* buf; char* cur;
};
struct Unpacker : SerializerBase {
  explicit Unpacker(char const* b) : cur(b) {}
  bool isUnpacking() const { return true; }
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    if (sz * n) { std::memcpy(p, cur, sz * n); cur += sz * n; }
  }
  char const* cur;
};
struct Footprinter : SerializerBase {
  bool isFootprinting() const { return true; }
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size += sz * n; }
  void addBytes(std::size_t n) { size += n; }
  template <typename T> void countBytes(T const& t) { size += sizeof(t); }
  std::size_t size = 0;
};

template <typename S> struct is_footprinter : std::is_same<S, Footprinter> {};
template <typename S> constexpr bool is_footprinter_v = is_footprinter<S>::value;
template <typename S> constexpr bool is_serializer_v =
  std::is_base_of<SerializerBase, S>::value;

template <typename T, typename S> using member_serialize_t =
  decltype(std::declval<T&>().serialize(std::declval<S&>()));
template <typename T, typename S> using free_serialize_t =
  decltype(serialize(std::declval<S&>(), std::declval<T&>()));

template <typename T>
struct SerializableTraits {
  static constexpr bool has_serialize_function =
    detection::is_detected<member_serialize_t, T, Sizer>::value;
  static constexpr bool has_serialize_noninstrusive =
    detection::is_detected<free_serialize_t, T, Sizer>::value;
  static constexpr bool is_bytecopyable = std::is_arithmetic<T>::value or
    std::is_enum<T>::value;
  static constexpr bool is_serializable = has_serialize_function or
    has_serialize_noninstrusive or is_bytecopyable;
};

template <typename S, typename T, typename = void>
struct Dispatch {
  static void apply(S& s, T& t) {
    if constexpr (std::is_arithmetic<T>::value or std::is_enum<T>::value) {
      s.contiguousBytes(&t, sizeof(T), 1);
    } else if constexpr (detection::is_detected<member_serialize_t, T, S>::value) {
      t.serialize(s);
    } else if constexpr (detection::is_detected<free_serialize_t, T, S>::value) {
      serialize(s, t);
    } else if constexpr (std::is_empty<T>::value) {
    } else if constexpr (std::is_same<S, Footprinter>::value) {
      s.countBytes(t);
    } else {
      static_assert(std::is_trivially_copyable<T>::value, "not serializable");
      s.contiguousBytes(&t, sizeof(T), 1);
    }
  }
};

template <typename S, typename T>
std::enable_if_t<is_serializer_v<S>, S&> operator|(S& s, T& t) {
  using U = std::remove_cv_t<T>;
  Dispatch<S, U>::apply(s, const_cast<U&>(t));
  return s;
}
template <typename S, typename T>
std::enable_if_t<is_serializer_v<S>, S&> operator<<(S& s, T& t) { return s | t; }

template <typename T> T* reconstructNew() {
  if constexpr (std::is_abstract<T>::value) {
    return nullptr;
  } else if constexpr (std::is_constructible<T, SERIALIZE_CONSTRUCT_TAG>::value) {
    return new T(SERIALIZE_CONSTRUCT_TAG{});
  } else {
    return new T();
  }
}
template <typename T> T makeValue() {
  if constexpr (std::is_default_constructible<T>::value) return T{};
  else return T(SERIALIZE_CONSTRUCT_TAG{});
}

template <typename S, typename Q> void doSeq(S& s, Q& q) {
  std::size_t n = q.size();
  s | n;
  if constexpr (std::is_same<S, Unpacker>::value) {
    q.clear();
    for (std::size_t i = 0; i < n; i++) {
      auto v = makeValue<typename Q::value_type>();
      s | v;
      q.insert(q.end(), std::move(v));
    }
  } else {
    for (auto& e : q) { s | e; }
  }
}
template <typename S, typename M> void doMap(S& s, M& m) {
  std::size_t n = m.size();
  s | n;
  if constexpr (std::is_same<S, Unpacker>::value) {
    m.clear();
    for (std::size_t i = 0; i < n; i++) {
      auto k = makeValue<typename M::key_type>();
      auto v = makeValue<typename M::mapped_type>();
      s | k; s | v;
      m.emplace(std::move(k), std::move(v));
    }
  } else {
    for (auto& e : m) {
      s | const_cast<typename M::key_type&>(e.first);
      s | e.second;
    }
  }
}

#define VSTUB_SEQ(TMPL, TYPE) \
  template <typename S, TMPL> struct Dispatch<S, TYPE, void> { \
    static void apply(S& s, TYPE& t) { doSeq(s, t); } };
#define VSTUB_COMMA ,
VSTUB_SEQ(typename T VSTUB_COMMA typename A, std::list<T VSTUB_COMMA A>)
VSTUB_SEQ(typename T VSTUB_COMMA typename A, std::deque<T VSTUB_COMMA A>)
VSTUB_SEQ(typename T VSTUB_COMMA typename C VSTUB_COMMA typename A, std::set<T VSTUB_COMMA C VSTUB_COMMA A>)
VSTUB_SEQ(typename T VSTUB_COMMA typename C VSTUB_COMMA typename A, std::multiset<T VSTUB_COMMA C VSTUB_COMMA A>)
VSTUB_SEQ(typename T VSTUB_COMMA typename H VSTUB_COMMA typename E VSTUB_COMMA typename A, std::unordered_set<T VSTUB_COMMA H VSTUB_COMMA E VSTUB_COMMA A>)
VSTUB_SEQ(typename C VSTUB_COMMA typename T VSTUB_COMMA typename A, std::basic_string<C VSTUB_COMMA T VSTUB_COMMA A>)
#define VSTUB_MAP(TMPL, TYPE) \
  template <typename S, TMPL> struct Dispatch<S, TYPE, void> { \
    static void apply(S& s, TYPE& t) { doMap(s, t); } };
VSTUB_MAP(typename K VSTUB_COMMA typename V VSTUB_COMMA typename C VSTUB_COMMA typename A, std::map<K VSTUB_COMMA V VSTUB_COMMA C VSTUB_COMMA A>)
VSTUB_MAP(typename K VSTUB_COMMA typename V VSTUB_COMMA typename C VSTUB_COMMA typename A, std::multimap<K VSTUB_COMMA V VSTUB_COMMA C VSTUB_COMMA A>)
VSTUB_MAP(typename K VSTUB_COMMA typename V VSTUB_COMMA typename H VSTUB_COMMA typename E VSTUB_COMMA typename A, std::unordered_map<K VSTUB_COMMA V VSTUB_COMMA H VSTUB_COMMA E VSTUB_COMMA A>)

template <typename S, typename T, typename A>
struct Dispatch<S, std::vector<T, A>, void> {
  static void apply(S& s, std::vector<T, A>& v) {
    std::size_t n = v.size();
    s | n;
    if constexpr (std::is_same<S, Unpacker>::value) {
      v.clear();
      for (std::size_t i = 0; i < n; i++) { v.emplace_back(makeValue<T>()); }
    }
    if constexpr (std::is_same<T, bool>::value) {
      for (std::size_t i = 0; i < n; i++) { bool b = v[i]; s | b; v[i] = b; }
    } else {
      for (auto& e : v) { s | e; }
    }
  }
};
template <typename S, typename T, std::size_t N>
struct Dispatch<S, std::array<T, N>, void> {
  static void apply(S& s, std::array<T, N>& v) { for (auto& e : v) s | e; }
};
template <typename S, typename T, std::size_t N>
struct Dispatch<S, T[N], void> {
  static void apply(S& s, T (&v)[N]) { for (auto& e : v) s | e; }
};
template <typename S, typename A, typename B>
struct Dispatch<S, std::pair<A, B>, void> {
  static void apply(S& s, std::pair<A, B>& p) {
    s | const_cast<std::remove_const_t<A>&>(p.first);
    s | const_cast<std::remove_const_t<B>&>(p.second);
  }
};
template <typename S, typename... Ts>
struct Dispatch<S, std::tuple<Ts...>, void> {
  static void apply(S& s, std::tuple<Ts...>& t) {
    std::apply([&](auto&... e) { (void)std::initializer_list<int>{((s | e), 0)...}; }, t);
  }
};
template <typename S, typename T, typename D>
struct Dispatch<S, std::unique_ptr<T, D>, void> {
  static void apply(S& s, std::unique_ptr<T, D>& p) {
    bool has = p != nullptr;
    s | has;
    if (has) {
      if constexpr (std::is_same<S, Unpacker>::value) p.reset(reconstructNew<T>());
      s | *p;
    }
  }
};
template <typename S, typename T>
struct Dispatch<S, std::shared_ptr<T>, void> {
  static void apply(S& s, std::shared_ptr<T>& p) {
    bool has = p != nullptr;
    s | has;
    if constexpr (not std::is_abstract<T>::value) {
      if (has) {
        if constexpr (std::is_same<S, Unpacker>::value) p.reset(reconstructNew<T>());
        s | *p;
      }
    }
  }
};
template <typename S, typename T>
struct Dispatch<S, std::atomic<T>, void> {
  static void apply(S& s, std::atomic<T>& a) {
    T t = a.load(); s | t; a.store(t);
  }
};
template <typename S, typename T>
struct Dispatch<S, std::optional<T>, void> {
  static void apply(S& s, std::optional<T>& o) {
    bool has = o.has_value(); s | has;
    if (has) { if constexpr (std::is_same<S, Unpacker>::value) o.emplace(makeValue<T>()); s | *o; }
  }
};
template <typename S, typename... Ts>
struct Dispatch<S, std::variant<Ts...>, void> {
  template <std::size_t I> static void one(S& s, std::variant<Ts...>& v, std::size_t i) {
    if constexpr (I < sizeof...(Ts)) {
      if (i == I) {
        if constexpr (std::is_same<S, Unpacker>::value) v.template emplace<I>();
        s | std::get<I>(v);
      } else { one<I + 1>(s, v, i); }
    }
  }
  static void apply(S& s, std::variant<Ts...>& v) {
    std::size_t i = v.index(); s | i; one<0>(s, v, i);
  }
};
#define VSTUB_COUNT(TMPL, TYPE) \
  template <typename S, TMPL> struct Dispatch<S, TYPE, void> { \
    static void apply(S& s, TYPE& t) { s.countBytes(t); } };
VSTUB_COUNT(typename R VSTUB_COMMA typename... A, std::function<R(A...)>)
VSTUB_COUNT(typename T VSTUB_COMMA typename C, std::queue<T VSTUB_COMMA C>)
VSTUB_COUNT(typename T VSTUB_COMMA typename C, std::stack<T VSTUB_COMMA C>)
VSTUB_COUNT(typename T VSTUB_COMMA typename C VSTUB_COMMA typename L, std::priority_queue<T VSTUB_COMMA C VSTUB_COMMA L>)
template <typename S, typename T> struct Dispatch<S, T*, void> {
  static void apply(S& s, T*& t) {
    static_assert(std::is_same<S, Footprinter>::value or std::is_function<T>::value
      or std::is_void<T>::value, "raw pointer serialized");
    s.countBytes(t);
  }
};
template <typename S> struct Dispatch<S, std::mutex, void> {
  static void apply(S& s, std::mutex& t) { s.countBytes(t); }
};

template <typename S, typename T>
void reconstructPointedToObjectIfNeeded(S& s, T*& p) {
  if constexpr (std::is_same<S, Unpacker>::value) {
    void* mem = std::malloc(sizeof(T));
    if constexpr (std::is_constructible<T, SERIALIZE_CONSTRUCT_TAG>::value) {
      p = new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
    } else if constexpr (std::is_default_constructible<T>::value) {
      p = new (mem) T();
    }
  }
}

struct SerializedInfo {
  virtual SerialByteType* getBuffer() const = 0;
  virtual std::size_t getSize() const = 0;
  virtual ~SerializedInfo() = default;
};
struct SerializedReturnType final : SerializedInfo {
  SerializedReturnType(char* b, std::size_t n, bool own) : b_(b), n_(n), own_(own) {}
  ~SerializedReturnType() { if (own_) delete[] b_; }
  SerialByteType* getBuffer() const override { return b_; }
  std::size_t getSize() const override { return n_; }
  char* b_; std::size_t n_; bool own_;
};

template <typename T> std::size_t getSize(T& t) {
  Sizer s; s | t; return s.size;
}
template <typename T> std::size_t getMemoryFootprint(T& t, std::size_t extra = 0) {
  Footprinter s; s | t; return s.size + extra;
}
template <typename T>
std::unique_ptr<SerializedReturnType> serialize(T& t, BufferCallbackType fn = nullptr) {
  auto n = getSize(t);
  bool own = fn == nullptr;
  char* b = own ? new char[n] : fn(n);
  Packer p(b); p | t;
  return std::make_unique<SerializedReturnType>(b, n, own);
}
template <typename T> std::unique_ptr<T> deserialize(char const* b) {
  std::unique_ptr<T> t(reconstructNew<T>());
  Unpacker u(b); u | *t; return t;
}
template <typename T> void deserializeInPlace(char const* b, T* t) {
  Unpacker u(b); u | *t;
}
template <typename T> void serializeToFile(T& t, std::string const& f) {
  auto r = serialize(t);
  std::ofstream o(f, std::ios::binary);
  o.write(r->getBuffer(), static_cast<std::streamsize>(r->getSize()));
}
inline std::vector<char> slurp(std::string const& f) {
  std::ifstream i(f, std::ios::binary);
  return std::vector<char>(std::istreambuf_iterator<char>(i), {});
}
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const& f) {
  auto b = slurp(f); return deserialize<T>(b.data());
}
template <typename T> void deserializeInPlaceFromFile(std::string const& f, T* t) {
  auto b = slurp(f); deserializeInPlace<T>(b.data(), t);
}

} // namespace checkpoint
namespace magistrate = checkpoint;

// Virtual serialization hooks: virtual dispatch over the four serializers.
#define magistrate_virtual_serialize_root() \
  virtual void vstubSerialize(::checkpoint::Sizer&) {} \
  virtual void vstubSerialize(::checkpoint::Packer&) {} \
  virtual void vstubSerialize(::checkpoint::Unpacker&) {} \
  virtual void vstubSerialize(::checkpoint::Footprinter&) {}
#define magistrate_virtual_serialize_derived_from(...)
#define checkpoint_virtual_serialize_root() magistrate_virtual_serialize_root()
#define checkpoint_virtual_serialize_derived_from(...)
#endif
