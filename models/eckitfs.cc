// Assumed contracts of eckit, continued: files kept in memory, texts and numbers.
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/log/Timer.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Translator.h"
#include <cstring>
#include <vector>
#include "v.h"

namespace eckit {
// ---- files: a name and its bytes. Opening for writing empties the file; what is written appears at once; every open
//      handle has its own position; appending writes at the end.
namespace {
struct MFile { std::string name, data; };
std::vector<MFile*>* files;
MFile* find(const std::string& n) { if (files) for (auto f : *files) if (f->name == n) return f; return nullptr; }
MFile* make(const std::string& n) { if (!files) files = new std::vector<MFile*>(); files->push_back(new MFile{n, ""}); return files->back(); }
struct Open { MFile* f; size_t pos; bool append; };
Open*& op(FILE*& f) { return (Open*&)f; }
}
bool PathName::exists() const { return find(asString()) != nullptr; }
void PathName::mkdir(short) const {}
DataHandle* PathName::fileHandle(bool overwrite) const { return new FileHandle(asString(), overwrite); }
FileHandle::FileHandle(const std::string& n, bool o) : name_(n), overwrite_(o), file_(nullptr), read_(false) {}
FileHandle::~FileHandle() { delete op(file_); }
void FileHandle::advance(const Length& l) { op(file_)->pos += (size_t)(long long)l; }
Length FileHandle::openForRead() { MFile* f = find(name_); if (!f) throw CantOpenFile(name_); delete op(file_); op(file_) = new Open{f, 0, false}; read_ = true; return (long long)f->data.size(); }
void FileHandle::openForWrite(const Length&) { MFile* f = find(name_); if (!f) f = make(name_); if (!overwrite_) f->data.clear(); delete op(file_); op(file_) = new Open{f, 0, false}; read_ = false; }
void FileHandle::openForAppend(const Length&) { MFile* f = find(name_); if (!f) f = make(name_); delete op(file_); op(file_) = new Open{f, f->data.size(), true}; read_ = false; }
long FileHandle::read(void* b, long n) { Open* o = op(file_); ASSERT(o && read_); size_t k = o->pos < o->f->data.size() ? o->f->data.size() - o->pos : 0; if ((size_t)n < k) k = (size_t)n; if (k) ::memcpy(b, o->f->data.data() + o->pos, k); o->pos += k; return (long)k; }
long FileHandle::write(const void* b, long n) { Open* o = op(file_); ASSERT(o && !read_); if (o->append) o->pos = o->f->data.size(); if (o->f->data.size() < o->pos + (size_t)n) o->f->data.resize(o->pos + (size_t)n); if (n) ::memcpy(&o->f->data[o->pos], b, (size_t)n); o->pos += (size_t)n; return n; }
void FileHandle::close() { delete op(file_); op(file_) = nullptr; }
void FileHandle::flush() {}
void FileHandle::rewind() { ASSERT(op(file_)); op(file_)->pos = 0; }
void FileHandle::print(std::ostream&) const {}
Length FileHandle::size() { MFile* f = find(name_); if (!f) throw FailedSystemCall("stat", Here(), 0); return (long long)f->data.size(); }
Length FileHandle::estimate() { return size(); }
Offset FileHandle::position() { ASSERT(op(file_)); return (long long)op(file_)->pos; }
bool FileHandle::isEmpty() const { return false; }
void FileHandle::restartReadFrom(const Offset& o) { seek(o); }
void FileHandle::restartWriteFrom(const Offset& o) { seek(o); }
void FileHandle::toRemote(Stream&) const {}
void FileHandle::selectMover(MoverTransferSelection&, bool) const {}
std::string FileHandle::title() const { return name_; }
std::string FileHandle::metricsTag() const { return "file"; }
Offset FileHandle::seek(const Offset& o) { ASSERT(op(file_)); op(file_)->pos = (size_t)(long long)o; return o; }
bool FileHandle::canSeek() const { return true; }
void FileHandle::skip(const Length& l) { ASSERT(op(file_)); op(file_)->pos += (size_t)(long long)l; }
DataHandle* FileHandle::clone() const { return new FileHandle(name_, overwrite_); }
void FileHandle::hash(MD5&) const {}
void FileHandle::encode(Stream&) const {}

Timer::Timer(const char*, std::ostream& o) : stopped_(true), name_(), outputAtExit_(false), out_(o) {}
Timer::Timer(const std::string&, std::ostream& o) : stopped_(true), name_(), outputAtExit_(false), out_(o) {}
Timer::~Timer() {}

// ---- texts
bool StringTools::isQuoted(const std::string& v) { return v.size() > 1 && v[0] == v[v.size() - 1] && (v[0] == '"' || v[0] == '\''); }
std::string StringTools::unQuote(const std::string& v) { return isQuoted(v) ? v.substr(1, v.size() - 2) : v; }

// ---- numbers
std::string Translator<int, std::string>::operator()(int i) { return std::to_string((long)i); }
}  // namespace eckit
