// Declaration-only stand-in for HighFive (not installed in this sandbox).
// brille's sources include it for HDF5 persistence; no contract calls any of
// it, so every operation is declared but never defined: a contract that did
// reach one would fail to link (native) or be refused (verifier).
#pragma once
#include <string>
#include <vector>
#include <initializer_list>
#include <utility>
#include <stdexcept>
#include <cassert>
#include <iostream>
#include <sstream>
#include <map>
#include <array>
#include <algorithm>
namespace HighFive {
enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };
class Object { };
class DataType { public: bool operator==(const DataType&) const; };
template<class T> class AtomicType: public DataType { };
class CompoundType: public DataType { public: struct member_def { std::string n; DataType t; member_def(std::string a, DataType b): n(std::move(a)), t(b) {} }; CompoundType(const std::initializer_list<member_def>&); };
template<class T> class EnumType: public DataType { public: struct member_def { member_def(const std::string&, T); }; EnumType(const std::initializer_list<member_def>&); };
template<class T> DataType create_datatype();
class DataSpace { public: explicit DataSpace(const std::vector<size_t>&); template<class T> static DataSpace From(const T&); std::vector<size_t> getDimensions() const; };
class Attribute: public Object { public: template<class T> void read(T&) const; template<class T> T read() const; template<class T> void write(const T&); };
class Selection { public: template<class T> void read(T&) const; template<class T> void read(T*) const; template<class T> void write(const T&); };
class DataSet: public Object { public:
  template<class T> void read(T&) const; template<class T> void read(T*) const; template<class T> T read() const; template<class T> void write(const T&); template<class T> void write_raw(const T*);
  template<class... A> Selection select(A&&...) const; DataSpace getSpace() const; std::vector<size_t> getDimensions() const; DataType getDataType() const;
  Attribute getAttribute(const std::string&) const; bool hasAttribute(const std::string&) const; template<class... A> Attribute createAttribute(const std::string&, A&&...); template<class T, class... A> Attribute createAttribute(const std::string&, A&&...); size_t getElementCount() const; };
class Group;
template<class D> class Node: public Object { public:
  bool exist(const std::string&) const; void unlink(const std::string&) const;
  Group createGroup(const std::string&, bool=true) const; Group getGroup(const std::string&) const;
  template<class... A> DataSet createDataSet(const std::string&, A&&...); template<class T, class... A> DataSet createDataSet(const std::string&, A&&...); DataSet getDataSet(const std::string&) const;
  template<class... A> Attribute createAttribute(const std::string&, A&&...); template<class T, class... A> Attribute createAttribute(const std::string&, A&&...); Attribute getAttribute(const std::string&) const; bool hasAttribute(const std::string&) const;
  ObjectType getObjectType(const std::string&) const; size_t getNumberObjects() const; std::vector<std::string> listObjectNames() const; std::string getPath() const; };
class Group: public Node<Group> { };
class File: public Node<File> { public: static constexpr unsigned ReadOnly=0, ReadWrite=1, Truncate=2, Excl=4, Create=8, Overwrite=2, OpenOrCreate=9; explicit File(const std::string&, unsigned=0); };
}
