// Clang file objects built without a file manager.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include "clang/Basic/DirectoryEntry.h"
#include "clang/Basic/FileEntry.h"
static clang::DirectoryEntryRef fake_dir(const std::string &name) {
  auto *de = new clang::DirectoryEntry;
  typedef llvm::StringMapEntry<llvm::ErrorOr<clang::DirectoryEntry &>> ME;
  void *mem = malloc(sizeof(ME) + name.size() + 1);
  auto *me = new (mem) ME(name.size(), *de);
  memcpy((char *)mem + sizeof(ME), name.data(), name.size());
  ((char *)mem)[sizeof(ME) + name.size()] = 0;
  return clang::DirectoryEntryRef(*me);
}
static clang::FileEntryRef fake_file(const std::string &name, unsigned uid = 0) {
  auto *fe = (clang::FileEntry *)calloc(1, sizeof(clang::FileEntry));
  new (&fe->RealPathName) std::string();
  fe->UID = uid;
  typedef clang::FileEntryRef::MapEntry ME;
  void *mem = malloc(sizeof(ME) + name.size() + 1);
  static clang::DirectoryEntryRef dir = fake_dir(".");
  auto *me = new (mem) ME(name.size(), clang::FileEntryRef::MapValue(*fe, dir));
  memcpy((char *)mem + sizeof(ME), name.data(), name.size());
  ((char *)mem)[sizeof(ME) + name.size()] = 0;
  return clang::FileEntryRef(*me);
}
