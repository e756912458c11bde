// Bounded stand-in for LLVM's YAML parser in symbolic runs: the harness hands over
// the parsed tree; navigation, kinds and single-pass iteration follow the real one.
#pragma once
#include <string>
#include <vector>
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/Twine.h"
#include "llvm/Support/Casting.h"
#include "llvm/Support/MemoryBufferRef.h"
#include "llvm/Support/SourceMgr.h"
namespace llvm { namespace yaml {
class Node;
}}
extern llvm::yaml::Node *h_yaml_root(llvm::StringRef text);
extern void h_yaml_error();
namespace llvm { namespace yaml {
class Node {
 public:
  enum NodeKind { NK_Null, NK_Scalar, NK_BlockScalar, NK_KeyValue, NK_Mapping, NK_Sequence, NK_Alias };
  int kind; std::string text; std::vector<Node *> kids;
  explicit Node(int k, std::string t = std::string()) : kind(k), text(std::move(t)) {}
  unsigned getType() const { return kind; }
};
template <class T> struct NodeIter {
  Node *const *p;
  T &operator*() const { return *static_cast<T *>(*p); }
  T *operator->() const { return static_cast<T *>(*p); }
  NodeIter &operator++() { ++p; return *this; }
  bool operator==(NodeIter o) const { return p == o.p; }
  bool operator!=(NodeIter o) const { return p != o.p; }
};
class NullNode : public Node { public: static bool classof(const Node *n) { return n->kind == NK_Null; } };
class ScalarNode : public Node {
 public:
  StringRef getRawValue() const { return text; }
  StringRef getValue(SmallVectorImpl<char> &) const { return text; }
  static bool classof(const Node *n) { return n->kind == NK_Scalar; }
};
class KeyValueNode : public Node {
 public:
  Node *getKey() { return kids[0]; }
  Node *getValue() { return kids[1]; }
  static bool classof(const Node *n) { return n->kind == NK_KeyValue; }
};
class MappingNode : public Node {
 public:
  typedef NodeIter<KeyValueNode> iterator;
  iterator begin() { return {kids.data()}; }
  iterator end() { return {kids.data() + kids.size()}; }
  static bool classof(const Node *n) { return n->kind == NK_Mapping; }
};
class SequenceNode : public Node {
 public:
  typedef NodeIter<Node> iterator;
  iterator begin() { return {kids.data()}; }
  iterator end() { return {kids.data() + kids.size()}; }
  static bool classof(const Node *n) { return n->kind == NK_Sequence; }
};
class Document { public: Node *root; Node *getRoot() { return root; } };
class document_iterator {
 public:
  Document *d;
  bool operator==(const document_iterator &o) const { return d == o.d; }
  bool operator!=(const document_iterator &o) const { return d != o.d; }
  Document &operator*() const { return *d; }
  Document *operator->() const { return d; }
};
class Stream {
  Document doc;
 public:
  Stream(StringRef t, SourceMgr &) { doc.root = h_yaml_root(t); }
  Stream(MemoryBufferRef b, SourceMgr &) { doc.root = h_yaml_root(b.getBuffer()); }
  document_iterator begin() { return {&doc}; }
  document_iterator end() { return {nullptr}; }
  bool failed() { return false; }
  void printError(Node *, const Twine &, SourceMgr::DiagKind = SourceMgr::DK_Error) { h_yaml_error(); }
};
} }
