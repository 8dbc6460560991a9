// A small, in-memory stand-in for the part of the HighFive (2.9) interface that
// brille uses.  HighFive (and HDF5) can not be obtained in this sandbox; this
// header keeps "files" as trees in a process-wide registry, with the semantics
// HighFive documents: creating what exists throws, reading what is missing
// throws, rank/extent mismatches throw, numeric types are converted on read,
// files opened read-only can not be modified, ragged nested vectors throw.
#ifndef VERIF_HIGHFIVE_SHIM_HPP
#define VERIF_HIGHFIVE_SHIM_HPP
#include <array>
#include <cassert>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace HighFive {

class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class FileException : public Exception { public: using Exception::Exception; };
class GroupException : public Exception { public: using Exception::Exception; };
class DataSetException : public Exception { public: using Exception::Exception; };
class DataTypeException : public Exception { public: using Exception::Exception; };
class DataSpaceException : public Exception { public: using Exception::Exception; };
class AttributeException : public Exception { public: using Exception::Exception; };

enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };
enum class DataTypeClass { Integer, Float, String, Enum, Compound, Complex, Invalid };

// ---------------------------------------------------------------- data types
class DataType {
public:
  DataTypeClass cls{DataTypeClass::Invalid};
  size_t size{0};
  bool is_signed{false};
  std::vector<std::pair<std::string, long long>> members; // enum values or compound offsets
  std::vector<DataType> subtypes;                         // compound members
  DataType() = default;
  DataTypeClass getClass() const { return cls; }
  size_t getSize() const { return size; }
  bool empty() const { return cls == DataTypeClass::Invalid; }
  bool operator==(const DataType& o) const {
    return cls == o.cls && size == o.size && is_signed == o.is_signed && members == o.members && subtypes == o.subtypes;
  }
  bool operator!=(const DataType& o) const { return !(*this == o); }
};

template<class T> struct is_complex_t : std::false_type {};
template<class T> struct is_complex_t<std::complex<T>> : std::true_type {};

template<class T> class AtomicType : public DataType {
public:
  AtomicType() {
    size = sizeof(T);
    if constexpr (std::is_integral_v<T>) { cls = DataTypeClass::Integer; is_signed = std::is_signed_v<T>; }
    else if constexpr (std::is_floating_point_v<T>) { cls = DataTypeClass::Float; is_signed = true; }
    else if constexpr (is_complex_t<T>::value) { cls = DataTypeClass::Complex; is_signed = true; }
    else if constexpr (std::is_same_v<T, std::string>) { cls = DataTypeClass::String; }
    else static_assert(sizeof(T) == 0, "AtomicType of an unsupported type");
  }
};

template<class T> class EnumType : public DataType {
public:
  struct member_def {
    member_def(const std::string& n, T v) : name(n), value(v) {}
    std::string name; T value;
  };
  EnumType(std::initializer_list<member_def> l) : EnumType(std::vector<member_def>(l)) {}
  explicit EnumType(const std::vector<member_def>& l) {
    cls = DataTypeClass::Enum; size = sizeof(T);
    if (l.empty()) throw DataTypeException("Could not create an enum without members");
    for (const auto& m : l) {
      auto v = static_cast<long long>(m.value);
      for (const auto& [n, w] : members)
        if (n == m.name || w == v) throw DataTypeException("Duplicate enumeration member " + m.name);
      members.emplace_back(m.name, v);
    }
  }
};

class CompoundType : public DataType {
public:
  struct member_def {
    member_def(std::string n, DataType t, size_t o = 0) : name(std::move(n)), base_type(std::move(t)), offset(o) {}
    std::string name; DataType base_type; size_t offset;
  };
  CompoundType(std::initializer_list<member_def> l, size_t sz = 0) : CompoundType(std::vector<member_def>(l), sz) {}
  explicit CompoundType(const std::vector<member_def>& l, size_t sz = 0) {
    cls = DataTypeClass::Compound;
    size_t cur{0}, max_align{1};
    for (const auto& m : l) {
      size_t al = m.base_type.getSize();
      if (al > max_align) max_align = al;
      size_t pad = (al - cur % al) % al;
      cur += pad;
      for (const auto& mm : members) if (mm.first == m.name) throw DataTypeException("Duplicate compound member " + m.name);
      members.emplace_back(m.name, static_cast<long long>(cur));
      subtypes.push_back(m.base_type);
      cur += al;
    }
    cur += (max_align - cur % max_align) % max_align;
    size = sz ? sz : cur;
  }
};

template<class T> struct always_false : std::false_type {};
// users may specialise this for their own (enum or compound) types
template<class T> inline DataType create_datatype() { return AtomicType<T>(); }

template<class T> inline DataType create_and_check_datatype() {
  DataType t = create_datatype<T>();
  if (t.empty()) throw DataTypeException("Type given to create_and_check_datatype is not valid");
  if (t.getSize() != sizeof(T)) throw DataTypeException("Size of given type and of the registered data type differ");
  return t;
}

// --------------------------------------------------------- container layout
namespace shim {
template<class T, class = void> struct layout {           // scalars
  using base = T;
  static constexpr size_t rank = 0;
  static void dims(const T&, size_t*) {}
  static void put(const T& v, const size_t*, std::vector<T>& out) { out.push_back(v); }
  static void resize(T&, const size_t*) {}
  static void get(T& v, const size_t*, const std::vector<T>& in, size_t& at) { v = in[at++]; }
};
template<class T> struct layout<std::vector<T>> {
  using in_t = layout<T>;
  using base = typename in_t::base;
  static constexpr size_t rank = in_t::rank + 1;
  static void dims(const std::vector<T>& v, size_t* d) { d[0] = v.size(); if (!v.empty()) in_t::dims(v[0], d + 1); }
  static void put(const std::vector<T>& v, const size_t* d, std::vector<base>& out) {
    if (v.size() != d[0]) throw DataSpaceException("Ragged nested containers can not be written");
    for (const auto& x : v) in_t::put(x, d + 1, out);
  }
  static void get(std::vector<T>& v, const size_t* d, const std::vector<base>& in, size_t& at) {
    v.resize(d[0]);
    for (size_t i = 0; i < d[0]; ++i) { T x{}; in_t::get(x, d + 1, in, at); v[i] = x; }
  }
};
template<class T, size_t N> struct layout<std::array<T, N>> {
  using in_t = layout<T>;
  using base = typename in_t::base;
  static constexpr size_t rank = in_t::rank + 1;
  static void dims(const std::array<T, N>& v, size_t* d) { d[0] = N; if (N) in_t::dims(v[0], d + 1); }
  static void put(const std::array<T, N>& v, const size_t* d, std::vector<base>& out) {
    for (const auto& x : v) in_t::put(x, d + 1, out);
  }
  static void get(std::array<T, N>& v, const size_t* d, const std::vector<base>& in, size_t& at) {
    if (d[0] != N) throw DataSpaceException("Impossible to pair DataSpace with a std::array of different size");
    for (size_t i = 0; i < N; ++i) in_t::get(v[i], d + 1, in, at);
  }
};

struct Blob {
  DataType type;
  std::vector<size_t> dims;
  std::vector<unsigned char> bytes;
  std::vector<std::string> strings;
  size_t count() const { size_t n = 1; for (auto d : dims) n *= d; return n; }
};

template<class To, class From> To convert_number(From f) {
  if constexpr (std::is_same_v<To, From>) return f;
  else if constexpr (std::is_integral_v<To> && !std::is_same_v<To, bool>) { // HDF5 clips on overflow
    long double v = static_cast<long double>(f);
    long double lo = static_cast<long double>(std::numeric_limits<To>::lowest());
    long double hi = static_cast<long double>((std::numeric_limits<To>::max)());
    if (v <= lo) return std::numeric_limits<To>::lowest();
    if (v >= hi) return (std::numeric_limits<To>::max)();
    return static_cast<To>(f);
  } else return static_cast<To>(f);
}
template<class To> To read_number(const DataType& t, const unsigned char* p) {
  auto as = [&](auto x) { std::memcpy(&x, p, sizeof(x)); return convert_number<To>(x); };
  if (t.cls == DataTypeClass::Float) {
    if (t.size == 4) return as(float{});
    if (t.size == 8) return as(double{});
    return as((long double)0);
  }
  if (t.is_signed) switch (t.size) {
    case 1: return as(int8_t{}); case 2: return as(int16_t{}); case 4: return as(int32_t{}); default: return as(int64_t{}); }
  switch (t.size) {
    case 1: return as(uint8_t{}); case 2: return as(uint16_t{}); case 4: return as(uint32_t{}); default: return as(uint64_t{}); }
}
template<class B> void to_bytes(const std::vector<B>& flat, Blob& b) {
  if constexpr (std::is_same_v<B, std::string>) { b.type = AtomicType<std::string>(); b.strings = flat; }
  else {
    b.type = create_and_check_datatype<B>();
    b.bytes.resize(flat.size() * sizeof(B));
    for (size_t i = 0; i < flat.size(); ++i) { B x = flat[i]; std::memcpy(b.bytes.data() + i * sizeof(B), &x, sizeof(B)); }
  }
}
template<class B> std::vector<B> from_bytes(const Blob& b) {
  std::vector<B> flat;
  size_t n = b.count();
  flat.reserve(n);
  if constexpr (std::is_same_v<B, std::string>) {
    if (b.type.cls != DataTypeClass::String) throw DataTypeException("Can not read a non-string as a string");
    flat = b.strings;
  } else {
    DataType want = create_and_check_datatype<B>();
    bool numeric_have = b.type.cls == DataTypeClass::Integer || b.type.cls == DataTypeClass::Float;
    for (size_t i = 0; i < n; ++i) {
      const unsigned char* p = b.bytes.data() + i * b.type.size;
      if constexpr (std::is_arithmetic_v<B>) {
        if (!numeric_have) throw DataTypeException("No conversion between the stored type and the requested number");
        flat.push_back(read_number<B>(b.type, p));
      } else {
        if (want.cls == DataTypeClass::Complex && numeric_have) throw DataTypeException("No conversion from real to complex");
        if (want != b.type) throw DataTypeException("No conversion between the stored and the requested type");
        B x; std::memcpy(static_cast<void*>(&x), p, sizeof(B)); flat.push_back(x);
      }
    }
  }
  return flat;
}
template<class T> Blob to_blob(const T& v) {
  using L = layout<T>;
  using B = typename L::base;
  Blob b;
  std::array<size_t, L::rank + 1> d; d.fill(1);
  L::dims(v, d.data());
  b.dims.assign(d.begin(), d.begin() + L::rank);
  std::vector<B> flat;
  L::put(v, d.data(), flat);
  to_bytes(flat, b);
  return b;
}
template<class T> void from_blob(const Blob& b, T& v) {
  using L = layout<T>;
  using B = typename L::base;
  std::vector<size_t> d = b.dims;
  // HighFive (2.9) tolerates superfluous extents of one
  while (d.size() > L::rank && !d.empty() && d.back() == 1) d.pop_back();
  while (d.size() > L::rank && !d.empty() && d.front() == 1) d.erase(d.begin());
  if (d.size() != L::rank) throw DataSpaceException("Impossible to read DataSet/Attribute of different dimensions");
  auto flat = from_bytes<B>(b);
  d.push_back(1);
  size_t at{0};
  L::get(v, d.data(), flat, at);
}

struct Node {
  ObjectType type{ObjectType::Group};
  std::map<std::string, std::shared_ptr<Node>> children;
  std::map<std::string, Blob> attributes;
  Blob data;
};
struct Registry {
  std::mutex m;
  std::map<std::string, std::shared_ptr<Node>> files;
  static Registry& get() { static Registry r; return r; }
};
inline bool file_exists(const std::string& n) { auto& r = Registry::get(); std::lock_guard<std::mutex> g(r.m); return r.files.count(n) > 0; }
inline void file_remove(const std::string& n) { auto& r = Registry::get(); std::lock_guard<std::mutex> g(r.m); r.files.erase(n); }
inline void clear_files() { auto& r = Registry::get(); std::lock_guard<std::mutex> g(r.m); r.files.clear(); }

inline std::vector<std::string> split(const std::string& p) {
  std::vector<std::string> o; std::string c;
  for (char ch : p) { if (ch == '/') { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty() && c != ".") o.push_back(c);
  return o;
}
} // namespace shim

// ------------------------------------------------------------------ objects
class DataSpace {
public:
  std::vector<size_t> d;
  DataSpace() = default;
  explicit DataSpace(std::vector<size_t> dims) : d(std::move(dims)) {}
  DataSpace(std::initializer_list<size_t> l) : d(l) {}
  template<class... A> explicit DataSpace(size_t a, A... r) : d{a, static_cast<size_t>(r)...} {}
  template<class T> static DataSpace From(const T& v) { return DataSpace(shim::to_blob(v).dims); }
  std::vector<size_t> getDimensions() const { return d; }
  size_t getNumberDimensions() const { return d.size(); }
  size_t getElementCount() const { size_t n = 1; for (auto x : d) n *= x; return n; }
};

class Object {
public:
  Object() = default;
  Object(std::shared_ptr<shim::Node> n, bool rw, std::shared_ptr<shim::Node> root) : node_(std::move(n)), root_(std::move(root)), writable_(rw) {}
  bool isValid() const noexcept { return static_cast<bool>(node_); }
  ObjectType getType() const { return node_->type; }
protected:
  std::shared_ptr<shim::Node> node_, root_;
  bool writable_{false};
  void need_write(const char* what) const { if (!writable_) throw Exception(std::string("File is opened read-only: can not ") + what); }
};

class Attribute : public Object {
  shim::Blob* b_{nullptr};
public:
  Attribute() = default;
  Attribute(std::shared_ptr<shim::Node> n, bool rw, std::shared_ptr<shim::Node> r, shim::Blob* b) : Object(n, rw, r), b_(b) {}
  template<class T> T read() const { T v{}; read(v); return v; }
  template<class T> void read(T& v) const { shim::from_blob(*b_, v); }
  template<class T> void write(const T& v) { need_write("write an attribute"); shim::Blob n = shim::to_blob(v); if (n.dims != b_->dims) throw DataSpaceException("wrong dimensions for attribute"); *b_ = n; }
  std::vector<size_t> getDimensions() const { return b_->dims; }
  DataSpace getSpace() const { return DataSpace(b_->dims); }
  DataType getDataType() const { return b_->type; }
  size_t getElementCount() const { return b_->count(); }
};

template<class D> class AnnotateTraits : public Object {
public:
  using Object::Object;
  template<class T> Attribute createAttribute(const std::string& name, const T& v) {
    this->need_write("create an attribute");
    if (this->node_->attributes.count(name)) throw AttributeException("Unable to create the attribute \"" + name + "\": name already exists");
    this->node_->attributes[name] = shim::to_blob(v);
    return Attribute(this->node_, this->writable_, this->root_, &this->node_->attributes[name]);
  }
  Attribute getAttribute(const std::string& name) const {
    auto it = this->node_->attributes.find(name);
    if (it == this->node_->attributes.end()) throw AttributeException("Unable to open the attribute \"" + name + "\"");
    return Attribute(this->node_, this->writable_, this->root_, &it->second);
  }
  bool hasAttribute(const std::string& name) const { return this->node_->attributes.count(name) > 0; }
  void deleteAttribute(const std::string& name) {
    this->need_write("delete an attribute");
    if (!this->node_->attributes.erase(name)) throw AttributeException("Unable to delete attribute \"" + name + "\"");
  }
  size_t getNumberAttributes() const { return this->node_->attributes.size(); }
  std::vector<std::string> listAttributeNames() const { std::vector<std::string> o; for (auto& p : this->node_->attributes) o.push_back(p.first); return o; }
};

class DataSet : public AnnotateTraits<DataSet> {
public:
  using AnnotateTraits<DataSet>::AnnotateTraits;
  std::vector<size_t> getDimensions() const { return node_->data.dims; }
  DataSpace getSpace() const { return DataSpace(node_->data.dims); }
  DataType getDataType() const { return node_->data.type; }
  size_t getElementCount() const { return node_->data.count(); }
  template<class T> T read() const { T v{}; read(v); return v; }
  template<class T> std::enable_if_t<!std::is_pointer_v<T>> read(T& v) const { shim::from_blob(node_->data, v); }
  template<class T> void read(T* p) const { read_raw(p); }
  template<class T> void read_raw(T* p) const { auto f = shim::from_bytes<T>(node_->data); for (size_t i = 0; i < f.size(); ++i) p[i] = f[i]; }
  template<class T> void write(const T& v) { need_write("write a dataset"); auto b = shim::to_blob(v); if (b.dims != node_->data.dims) throw DataSpaceException("wrong dimensions for dataset"); node_->data = b; }
  template<class T> void write_raw(const T* p) { need_write("write a dataset"); std::vector<T> f(p, p + node_->data.count()); auto d = node_->data.dims; shim::Blob b; b.dims = d; shim::to_bytes(f, b); node_->data = b; }
};

class Group;
template<class D> class NodeTraits : public AnnotateTraits<D> {
  std::shared_ptr<shim::Node> find(const std::string& path) const {
    auto n = (!path.empty() && path[0] == '/') ? this->root_ : this->node_;
    for (auto& p : shim::split(path)) {
      auto it = n->children.find(p);
      if (it == n->children.end()) return nullptr;
      n = it->second;
    }
    return n;
  }
  std::shared_ptr<shim::Node> make(const std::string& path, ObjectType t, bool parents) {
    this->need_write("create an object");
    auto n = (!path.empty() && path[0] == '/') ? this->root_ : this->node_;
    auto parts = shim::split(path);
    if (parts.empty()) throw GroupException("Unable to create the object \"" + path + "\"");
    for (size_t i = 0; i + 1 < parts.size(); ++i) {
      if (n->type == ObjectType::Dataset) throw GroupException("\"" + path + "\" passes through a dataset");
      auto& c = n->children[parts[i]];
      if (!c) { if (!parents) { n->children.erase(parts[i]); throw GroupException("missing intermediate group"); } c = std::make_shared<shim::Node>(); }
      n = c;
    }
    if (n->type == ObjectType::Dataset) throw GroupException("\"" + path + "\" passes through a dataset");
    if (n->children.count(parts.back())) throw GroupException("Unable to create \"" + path + "\": name already exists");
    auto c = std::make_shared<shim::Node>();
    c->type = t;
    n->children[parts.back()] = c;
    return c;
  }
public:
  using AnnotateTraits<D>::AnnotateTraits;
  bool exist(const std::string& path, bool = true) const { return static_cast<bool>(find(path)); }
  void unlink(const std::string& path) const {
    this->need_write("unlink");
    auto n = (!path.empty() && path[0] == '/') ? this->root_ : this->node_;
    auto parts = shim::split(path);
    if (parts.empty()) throw GroupException("Invalid name for unlink()");
    for (size_t i = 0; i + 1 < parts.size(); ++i) {
      auto it = n->children.find(parts[i]);
      if (it == n->children.end()) throw GroupException("Invalid name for unlink()");
      n = it->second;
    }
    if (!n->children.erase(parts.back())) throw GroupException("Invalid name for unlink()");
  }
  Group createGroup(const std::string& path, bool parents = true);
  Group getGroup(const std::string& path) const;
  template<class T> DataSet createDataSet(const std::string& path, const T& v) {
    auto b = shim::to_blob(v);
    auto n = make(path, ObjectType::Dataset, true);
    n->data = std::move(b);
    return DataSet(n, this->writable_, this->root_);
  }
  template<class T> DataSet createDataSet(const std::string& path, const DataSpace& s) {
    shim::Blob b; b.dims = s.d; std::vector<T> f(s.getElementCount()); shim::to_bytes(f, b);
    auto n = make(path, ObjectType::Dataset, true);
    n->data = std::move(b);
    return DataSet(n, this->writable_, this->root_);
  }
  DataSet getDataSet(const std::string& path) const {
    auto n = find(path);
    if (!n || n->type != ObjectType::Dataset) throw DataSetException("Unable to open the dataset \"" + path + "\"");
    return DataSet(n, this->writable_, this->root_);
  }
  ObjectType getObjectType(const std::string& path) const {
    auto n = find(path);
    if (!n) throw GroupException("no object \"" + path + "\"");
    return n->type;
  }
  std::vector<std::string> listObjectNames() const { std::vector<std::string> o; for (auto& p : this->node_->children) o.push_back(p.first); return o; }
  size_t getNumberObjects() const { return this->node_->children.size(); }
  friend class Group;
};
class Group : public NodeTraits<Group> { public: using NodeTraits<Group>::NodeTraits; };
template<class D> Group NodeTraits<D>::createGroup(const std::string& p, bool parents) { return Group(make(p, ObjectType::Group, parents), this->writable_, this->root_); }
template<class D> Group NodeTraits<D>::getGroup(const std::string& p) const {
  auto n = find(p);
  if (!n || n->type == ObjectType::Dataset) throw GroupException("Unable to open the group \"" + p + "\"");
  return Group(n, this->writable_, this->root_);
}

class File : public NodeTraits<File> {
  std::string name_;
public:
  enum : unsigned { ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u, Debug = 0x08u, Create = 0x10u,
                    Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
  explicit File(const std::string& filename, unsigned flags = ReadOnly) : name_(filename) {
    auto& r = shim::Registry::get();
    std::lock_guard<std::mutex> g(r.m);
    bool there = r.files.count(filename) > 0;
    bool must_create = flags & (Create | Truncate | Excl);
    if (flags & Truncate) { r.files[filename] = std::make_shared<shim::Node>(); }
    else if ((flags & Excl) && there) throw FileException("Unable to create file " + filename + ": file exists");
    else if (!there) {
      if (!must_create) throw FileException("Unable to open file " + filename);
      r.files[filename] = std::make_shared<shim::Node>();
    }
    node_ = root_ = r.files[filename];
    writable_ = (flags & (ReadWrite | Truncate | Excl | Create)) != 0;
  }
  const std::string& getName() const { return name_; }
  void flush() {}
};

} // namespace HighFive
#endif
