// Assumed contracts of the eckit library (external dependency): executable models of the parts odc's core calls.
#include "eckit/config/Resource.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/HandleHolder.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferList.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/MemoryHandle.h"
#include <unistd.h>
#include "eckit/log/CodeLocation.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"
#include "eckit/system/Library.h"
#include "eckit/thread/Mutex.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Translator.h"
#include <cstring>
#include <vector>
#include "v.h"

namespace eckit {

// ---- exceptions
SavedStatus::SavedStatus() {}
SavedStatus::~SavedStatus() {}
// (text formatted through a stream is empty here: iostreams are not modelled)
Exception::Exception(const std::string& w, const CodeLocation& l) : what_(w.empty() ? "formatted" : w), next_(nullptr), location_(l) {}
Exception::Exception(const std::string& w, const CodeLocation& l, bool) : what_(w), next_(nullptr), location_(l) {}
Exception::Exception() : next_(nullptr) {}
Exception::~Exception() noexcept {}
void Exception::print(std::ostream&) const {}
void Exception::reason(const std::string& w) { what_ = w; }
SeriousBug::SeriousBug(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
UserError::UserError(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
UserError::UserError(const std::string& w, const std::string& x, const CodeLocation& l) : Exception(w, l) {}
AssertionFailed::AssertionFailed(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
BadParameter::BadParameter(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
BadValue::BadValue(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
NotImplemented::NotImplemented(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
FailedSystemCall::FailedSystemCall(const std::string& w, const CodeLocation& l, int) : Exception(w, l) {}
FileError::FileError(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
CantOpenFile::CantOpenFile(const std::string& w, bool, const CodeLocation& l) : FileError(w, l) {}
ReadError::ReadError(const std::string& w, const CodeLocation& l) : FileError(w, l) {}
WriteError::WriteError(const std::string& w, const CodeLocation& l) : FileError(w, l) {}
OutOfRange::OutOfRange(const std::string& w, const CodeLocation& l) : Exception(w, l) {}
void handle_assert(const std::string& m, const CodeLocation& l) { throw AssertionFailed(m, l); }
void handle_panic(const char*, const CodeLocation&) { v_fail("no-terminate"); }
CodeLocation::operator bool() const { return file_ != nullptr; }
std::string CodeLocation::asString() const { return std::string(); }

// ---- Buffer
void Buffer::create() { buffer_ = new char[size_]; }
void Buffer::destroy() { if (buffer_) { delete[] buffer_; size_ = 0; buffer_ = nullptr; } }
Buffer::Buffer(size_t s) : buffer_(nullptr), size_(s) { create(); }
Buffer::Buffer(const void* p, size_t s) : buffer_(nullptr), size_(s) { create(); ::memcpy(buffer_, p, s); }
Buffer::Buffer(Buffer&& r) noexcept : buffer_(r.buffer_), size_(r.size_) { r.buffer_ = nullptr; r.size_ = 0; }
Buffer& Buffer::operator=(Buffer&& r) noexcept { if (this != &r) { if (buffer_) delete[] buffer_; buffer_ = r.buffer_; size_ = r.size_; r.buffer_ = nullptr; r.size_ = 0; } return *this; }
Buffer::~Buffer() { destroy(); }
void Buffer::zero() { ::memset(buffer_, 0, size_); }
void Buffer::resize(size_t n, bool keep) { if (n == size_) return; char* b = new char[n]; if (keep) ::memcpy(b, buffer_, n < size_ ? n : size_); delete[] buffer_; buffer_ = b; size_ = n; }
void Buffer::copy(const void* p, size_t s, size_t pos) { ASSERT(s + pos <= size_); ::memcpy(buffer_ + pos, p, s); }

void BufferList::append(Buffer&& b) { buffers_.emplace_back(std::move(b)); }
Length BufferList::size() const { long long n = 0; for (auto& b : buffers_) n += b.size(); return n; }
Buffer BufferList::consolidate() { Buffer r((size_t)(long long)size()); size_t p = 0; for (auto& b : buffers_) { if (b.size()) ::memcpy((char*)r + p, b, b.size()); p += b.size(); } buffers_.clear(); return r; }
// ---- Streamable / DataHandle
void Streamable::encode(Stream&) const {}
std::string Streamable::className() const { return "Streamable"; }
DataHandle::DataHandle() {}
Length DataHandle::openForRead() { throw NotImplemented("openForRead", Here()); }
void DataHandle::openForWrite(const Length&) { throw NotImplemented("openForWrite", Here()); }
void DataHandle::openForAppend(const Length&) { throw NotImplemented("openForAppend", Here()); }
long DataHandle::read(void*, long) { throw NotImplemented("read", Here()); }
long DataHandle::write(const void*, long) { throw NotImplemented("write", Here()); }
void DataHandle::close() { throw NotImplemented("close", Here()); }
void DataHandle::flush() {}
Length DataHandle::size() { throw NotImplemented("size", Here()); }
Length DataHandle::estimate() { return 0; }
Offset DataHandle::position() { throw NotImplemented("position", Here()); }
Offset DataHandle::seek(const Offset&) { throw NotImplemented("seek", Here()); }
bool DataHandle::canSeek() const { throw NotImplemented("canSeek", Here()); }
void DataHandle::skip(const Length& l) { seek(position() + l); }
void DataHandle::rewind() { throw NotImplemented("rewind", Here()); }
void DataHandle::restartReadFrom(const Offset&) { throw NotImplemented("restartReadFrom", Here()); }
void DataHandle::restartWriteFrom(const Offset&) { throw NotImplemented("restartWriteFrom", Here()); }
DataHandle* DataHandle::clone() const { throw NotImplemented("clone", Here()); }
std::string DataHandle::name() const { return "DataHandle"; }
std::string DataHandle::title() const { return "DataHandle"; }
std::string DataHandle::metricsTag() const { return "DataHandle"; }
void DataHandle::collectMetrics(const std::string&) const {}
void DataHandle::hash(MD5&) const {}
void DataHandle::encode(Stream&) const {}
void DataHandle::toLocal(Stream&) const {}
DataHandle* DataHandle::toLocal() { return this; }
void DataHandle::toRemote(Stream&) const {}
void DataHandle::selectMover(MoverTransferSelection&, bool) const {}
Length DataHandle::saveInto(DataHandle&, TransferWatcher&) { throw NotImplemented("saveInto", Here()); }
Length DataHandle::saveInto(const PathName&, TransferWatcher&) { throw NotImplemented("saveInto", Here()); }
Length DataHandle::copyTo(DataHandle& o, long, Length, TransferWatcher&) {
  Length est = openForRead(); o.openForWrite(est); char b[64]; long n; long long tot = 0;
  while ((n = read(b, sizeof(b))) > 0) { if (o.write(b, n) != n) throw WriteError("copyTo"); tot += n; }
  close(); o.close(); return tot;
}
AutoClose::~AutoClose() noexcept(false) { handle_.close(); }

// ---- MemoryHandle
MemoryHandle::MemoryHandle(const void* a, size_t s) : address_((char*)a), size_(s), capacity_(s), opened_(false), readOnly_(true), read_(false), grow_(false), owned_(false), position_(0) {}
MemoryHandle::MemoryHandle(void* a, size_t s) : address_((char*)a), size_(s), capacity_(s), opened_(false), readOnly_(false), read_(false), grow_(false), owned_(false), position_(0) {}
MemoryHandle::MemoryHandle(size_t s, bool g) : address_(new char[s]), size_(0), capacity_(s), opened_(false), readOnly_(false), read_(false), grow_(g), owned_(true), position_(0) {}
MemoryHandle::~MemoryHandle() { if (owned_ && address_) delete[] address_; }
Length MemoryHandle::openForRead() { read_ = true; position_ = 0; opened_ = true; return size(); }
void MemoryHandle::openForWrite(const Length&) { ASSERT(!readOnly_); read_ = false; position_ = 0; opened_ = true; if (grow_) size_ = 0; }
void MemoryHandle::openForAppend(const Length&) { ASSERT(!readOnly_); read_ = false; opened_ = true; position_ = size_; }
void MemoryHandle::skip(const Length& l) { seek(Offset((long long)position_ + (long long)l)); }
long MemoryHandle::read(void* b, long n) { ASSERT(opened_); ASSERT(read_); size_t left = size_ - (size_t)(long long)position_; size_t k = (size_t)n < left ? (size_t)n : left; ::memcpy(b, address_ + (long long)position_, k); position_ += Length(k); return k; }
long MemoryHandle::write(const void* b, long n) {
  ASSERT(opened_); ASSERT(!read_);
  size_t left = capacity_ - (size_t)(long long)position_;
  if (left < (size_t)n && grow_) { while (left < (size_t)n) { size_t nc = capacity_ ? capacity_ * 2 : 16; char* a = new char[nc]; ::memcpy(a, address_, (size_t)(long long)position_); delete[] address_; address_ = a; capacity_ = nc; left = capacity_ - (size_t)(long long)position_; } }
  size_t k = (size_t)n < left ? (size_t)n : left; ::memcpy(address_ + (long long)position_, b, k); position_ += Length(k);
  if ((size_t)(long long)position_ > size_) size_ = (size_t)(long long)position_; return k;
}
void MemoryHandle::close() { opened_ = false; }
void MemoryHandle::flush() {}
void MemoryHandle::rewind() { ASSERT(opened_); position_ = 0; }
void MemoryHandle::print(std::ostream&) const {}
Length MemoryHandle::size() { return (long long)size_; }
Length MemoryHandle::size() const { return (long long)size_; }
Length MemoryHandle::estimate() { return size(); }
Offset MemoryHandle::position() { return position_; }
Offset MemoryHandle::seek(const Offset& o) { position_ = std::max((long long)0, std::min((long long)o, (long long)size_)); return position_; }
const void* MemoryHandle::data() const { return address_; }
DataHandle* MemoryHandle::clone() const { throw NotImplemented("clone", Here()); }
std::string MemoryHandle::title() const { return "MemoryHandle"; }

// ---- FileDescHandle: a thin layer over the descriptor (fd.c)
FileDescHandle::FileDescHandle(int fd, bool c) : fd_(fd), close_(c) {}
FileDescHandle::~FileDescHandle() { if (fd_ != -1) close(); }
Length FileDescHandle::openForRead() { return 0; }
void FileDescHandle::openForWrite(const Length&) {}
void FileDescHandle::openForAppend(const Length&) {}
long FileDescHandle::read(void* b, long n) { return ::read(fd_, b, (size_t)n); }
long FileDescHandle::write(const void* b, long n) { return ::write(fd_, b, (size_t)n); }
void FileDescHandle::close() { if (!close_ || fd_ == -1) return; if (::close(fd_) < 0) throw FailedSystemCall("close", Here(), 0); fd_ = -1; }
void FileDescHandle::print(std::ostream&) const {}
void FileDescHandle::skip(const Length& l) { if (::lseek(fd_, (long long)l, SEEK_CUR) < 0) throw FailedSystemCall("lseek", Here(), 0); }
Offset FileDescHandle::seek(const Offset& o) { long r = ::lseek(fd_, (long long)o, SEEK_SET); if (r < 0) throw FailedSystemCall("lseek", Here(), 0); return r; }
Offset FileDescHandle::position() { long r = ::lseek(fd_, 0, SEEK_CUR); if (r < 0) throw FailedSystemCall("lseek", Here(), 0); return r; }
void FileDescHandle::encode(Stream&) const {}

// ---- MD5: an injective digest. Equal contents give equal digests, different contents give different digests
//      (collision-freeness of MD5 is assumed).
namespace {
struct Seen { char* p; size_t n; };
Seen* seen; size_t nseen;
}
Hash::Hash() {}
Hash::~Hash() {}
MD5::MD5() {}
MD5::~MD5() {}
void MD5::reset() const { digest_ = std::string(); }
Hash::digest_t MD5::compute(const void* p, long n) { MD5 m; m.update(p, n); return m.digest(); }
void MD5::update(const void* p, long n) { digest_.append((const char*)p, (size_t)n); }
Hash::digest_t MD5::digest() const {
  if (!seen) { seen = new Seen[64]; nseen = 0; }
  size_t id = 0;
  for (; id < nseen; id++) if (seen[id].n == digest_.size() && ::memcmp(seen[id].p, digest_.data(), digest_.size()) == 0) break;
  if (id == nseen) { ASSERT(nseen < 64); seen[id].n = digest_.size(); seen[id].p = new char[digest_.size() + 1]; ::memcpy(seen[id].p, digest_.data(), digest_.size()); nseen++; }
  std::string r(32, 'd'); r[30] = 'a' + (id / 26); r[31] = 'a' + (id % 26);
  return r;
}

// ---- Resource: the environment / configuration holds nothing: defaults apply
ResourceBase::ResourceBase(Configurable*, const std::string&) : owner_(nullptr), inited_(true) {}
ResourceBase::~ResourceBase() {}
void ResourceBase::init() {}
bool ResourceBase::setFromConfigFile() { return false; }
bool Translator<std::string, bool>::operator()(const std::string&) { return false; }
std::string Translator<long, std::string>::operator()(long) { return std::string(); }
std::string Translator<bool, std::string>::operator()(bool) { return std::string(); }

// ---- StringTools
bool StringTools::startsWith(const std::string& s, const std::string& p) { if (p.empty() || s.size() < p.size()) return false; for (size_t i = 0; i < p.size(); i++) if (s[i] != p[i]) return false; return true; }
std::string StringTools::upper(const std::string& s) { std::string r(s); for (auto& c : r) c = ::toupper(c); return r; }
std::string StringTools::lower(const std::string& s) { std::string r(s); for (auto& c : r) c = ::tolower(c); return r; }
std::string StringTools::trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && ::isspace(s[a])) a++; while (b > a && ::isspace(s[b - 1])) b--; return s.substr(a, b - a); }
std::vector<std::string> StringTools::split(const std::string& d, const std::string& t) {
  std::vector<std::string> r; std::string w;
  for (char c : t) { bool sep = false; for (char e : d) if (e == c) sep = true; if (sep) { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); }
  if (!w.empty()) r.push_back(w);
  return r;
}

// ---- Mutex, Library, PathName
Mutex::Mutex(char) { ::memset(&mutex_, 0, sizeof(mutex_)); mutex_.__data.__kind = PTHREAD_MUTEX_RECURSIVE_NP; }
Mutex::~Mutex() {}
void Mutex::lock() { ::pthread_mutex_lock(&mutex_); }
void Mutex::unlock() { ::pthread_mutex_unlock(&mutex_); }
namespace system {
Library::Library(const std::string& n) : name_(n), debug_(false) {}
Library::~Library() {}
const std::string& Library::name() const { return name_; }
std::string Library::prefixDirectory() const { return std::string(); }
std::string Library::libraryHome() const { return std::string(); }
void Library::libraryHome(const std::string&) {}
std::string Library::expandPath(const std::string& p) const { return p; }
std::string Library::home() const { return std::string(); }
const void* Library::addr() const { return this; }
}  // namespace system
// (a name only: no file system behind it)
struct NameHolder { std::string s; };
static NameHolder* nm(const BasePathName* p) { return (NameHolder*)p; }
PathName::PathName(const char* p, bool) : path_((BasePathName*)new NameHolder{p}) {}
PathName::PathName(const std::string& p, bool) : path_((BasePathName*)new NameHolder{p}) {}
PathName::PathName(const PathName& p) : path_((BasePathName*)new NameHolder{nm(p.path_)->s}) {}
PathName& PathName::operator=(const PathName& p) { if (this != &p) nm(path_)->s = nm(p.path_)->s; return *this; }
PathName& PathName::operator=(const std::string& p) { nm(path_)->s = p; return *this; }
PathName& PathName::operator=(const char* p) { nm(path_)->s = p; return *this; }
PathName::~PathName() { delete nm(path_); }
std::string PathName::asString() const { return nm(path_)->s; }
bool PathName::operator==(const PathName& o) const { return nm(path_)->s == nm(o.path_)->s; }
bool PathName::operator<(const PathName& o) const { return nm(path_)->s < nm(o.path_)->s; }
HandleHolder::HandleHolder(DataHandle& h) : handle_(&h), owned_(false) {}
HandleHolder::HandleHolder(DataHandle* h) : handle_(h), owned_(true) {}
HandleHolder::~HandleHolder() { if (owned_) delete handle_; }
}  // namespace eckit
