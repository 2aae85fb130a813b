// Stream classes with the standard interface, backed by sxfs (file streams) or memory (string streams).
#pragma once
#include <iosfwd>
#include <string>
#include <vector>
#include <stdexcept>
#include <system_error>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include "sxfs.h"
namespace std {
class locale { public: locale() {} static const locale &classic() { static locale l; return l; } };
class ios_base {
public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
    static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, skipws = 4096, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260, unitbuf = 8192, showpoint = 1024, showpos = 2048;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class failure : public std::runtime_error { public: explicit failure(const char *s) : std::runtime_error(s) {} explicit failure(const std::string &s) : std::runtime_error(s) {} };
    class Init { public: Init() {} ~Init() {} };
    fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; } fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
    streamsize width() const { return w_; } streamsize width(streamsize w) { auto o = w_; w_ = w; return o; } streamsize precision() const { return pr_; } streamsize precision(streamsize p) { auto o = pr_; pr_ = p; return o; }
    locale imbue(const locale &) { return locale(); } locale getloc() const { return locale(); } static bool sync_with_stdio(bool = true) { return true; }
protected:
    fmtflags fl_ = dec | skipws; streamsize w_ = 0, pr_ = 6;
    ios_base() {} 
};
template <typename C, typename T> class basic_streambuf {
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    int_type sgetc() { return underflow(); } int_type sbumpc() { return uflow(); } int_type snextc() { if (T::eq_int_type(uflow(), T::eof())) return T::eof(); return underflow(); }
    streamsize sgetn(C *p, streamsize n) { return xsgetn(p, n); } int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); } streamsize sputn(const C *p, streamsize n) { return xsputn(p, n); }
    int_type sputbackc(C) { return pback(); } int_type sungetc() { return pback(); } streamsize in_avail() { return 0; }
    int pubsync() { return sync(); } pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); } pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(off_type(p), ios_base::beg, m); }
    locale pubimbue(const locale &) { return locale(); } locale getloc() const { return locale(); }
protected:
    virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { return T::eof(); } virtual int_type pback() { return T::eof(); }
    virtual streamsize xsgetn(C *p, streamsize n) { streamsize k = 0; while (k < n) { int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break; p[k++] = T::to_char_type(c); } return k; }
    virtual streamsize xsputn(const C *p, streamsize n) { streamsize k = 0; while (k < n) { if (T::eq_int_type(overflow(T::to_int_type(p[k])), T::eof())) break; ++k; } return k; }
    virtual int_type overflow(int_type = T::eof()) { return T::eof(); } virtual int sync() { return 0; } virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
    // pointers kept only so that code written against the standard interface compiles
    C *eback() const { return nullptr; } C *gptr() const { return nullptr; } C *egptr() const { return nullptr; } C *pbase() const { return nullptr; } C *pptr() const { return nullptr; } C *epptr() const { return nullptr; } void gbump(int) {} void setg(C *, C *, C *) {} void pbump(int) {} void setp(C *, C *) {}
};
template <typename C, typename T> class basic_ios : public ios_base {
    basic_streambuf<C, T> *sb_ = nullptr; iostate st_ = goodbit, ex_ = goodbit; C fill_ = ' '; basic_ostream<C, T> *tie_ = nullptr;
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ios(basic_streambuf<C, T> *b) { init(b); } basic_ios() {} virtual ~basic_ios() {}
    void init(basic_streambuf<C, T> *b) { sb_ = b; st_ = b ? goodbit : badbit; }
    basic_streambuf<C, T> *rdbuf() const { return sb_; } basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto o = sb_; sb_ = b; clear(); return o; }
    iostate rdstate() const { return st_; } void clear(iostate s = goodbit) { st_ = sb_ ? s : (s | badbit); if (st_ & ex_) throw failure("basic_ios::clear"); } void setstate(iostate s) { clear(st_ | s); } void _M_setstate(iostate s) { st_ |= s; }
    bool good() const { return st_ == 0; } bool eof() const { return (st_ & eofbit) != 0; } bool fail() const { return (st_ & (badbit | failbit)) != 0; } bool bad() const { return (st_ & badbit) != 0; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
    C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; } basic_ostream<C, T> *tie() const { return tie_; } basic_ostream<C, T> *tie(basic_ostream<C, T> *t) { auto o = tie_; tie_ = t; return o; }
    C widen(char c) const { return C(c); } char narrow(C c, char) const { return (char)c; }
    basic_ios &copyfmt(const basic_ios &o) { fl_ = o.fl_; w_ = o.w_; pr_ = o.pr_; fill_ = o.fill_; return *this; }
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
    basic_ostream &pad(const char *s, size_t n) { sentry g(*this); if (g) { string t; auto w = this->width(); if (w > (streamsize)n && !(this->flags() & ios_base::left)) t.append(w - n, this->fill()); t.append(s, n); if (w > (streamsize)n && (this->flags() & ios_base::left)) t.append(w - n, this->fill()); this->width(0); if (this->rdbuf()->sputn(t.data(), t.size()) != (streamsize)t.size()) this->setstate(ios_base::badbit); } return *this; }
    template <class I> basic_ostream &num(I v) { char b[40]; int k = 40; bool neg = false; unsigned long long u; if constexpr (numeric_limits<I>::is_signed) { neg = v < 0; u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; } else u = v; unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10; if (base != 10 && neg) { u = (unsigned long long)v; if (sizeof(I) < 8) u &= (1ull << (8 * sizeof(I))) - 1; neg = false; } do { unsigned d = (unsigned)(u % base); b[--k] = (char)(d < 10 ? '0' + d : ((this->flags() & ios_base::uppercase) ? 'A' : 'a') + d - 10); u /= base; } while (u); if (neg) b[--k] = '-'; return pad(b + k, 40 - k); }
    basic_ostream &flt(double v) { char b[64]; int n = snprintf(b, 64, (this->flags() & ios_base::fixed) ? "%.*f" : (this->flags() & ios_base::scientific) ? "%.*e" : "%.*g", (int)this->precision(), v); return pad(b, n); }
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    class sentry { bool ok_; public: explicit sentry(basic_ostream &o) : ok_(o.good()) { if (!ok_) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
    explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); } virtual ~basic_ostream() {}
    basic_ostream(const basic_ostream &) = delete; basic_ostream &operator=(const basic_ostream &) = delete;
    basic_ostream &put(C c) { sentry g(*this); if (g && this->rdbuf()->sputn(&c, 1) != 1) this->setstate(ios_base::badbit); return *this; }
    basic_ostream &write(const C *s, streamsize n) { sentry g(*this); if (g && this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream &flush() { if (this->rdbuf() && this->good() && this->rdbuf()->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::out); }
    basic_ostream &seekp(pos_type p) { return seekp(off_type(p), ios_base::beg); } basic_ostream &seekp(off_type o, ios_base::seekdir d) { if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); } basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; } basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
    basic_ostream &operator<<(int v) { return num(v); } basic_ostream &operator<<(unsigned v) { return num(v); } basic_ostream &operator<<(long v) { return num(v); } basic_ostream &operator<<(unsigned long v) { return num(v); } basic_ostream &operator<<(long long v) { return num(v); } basic_ostream &operator<<(unsigned long long v) { return num(v); } basic_ostream &operator<<(short v) { return num(v); } basic_ostream &operator<<(unsigned short v) { return num(v); }
    basic_ostream &operator<<(bool v) { if (this->flags() & ios_base::boolalpha) return pad(v ? "true" : "false", v ? 4 : 5); return num((int)v); } basic_ostream &operator<<(double v) { return flt(v); } basic_ostream &operator<<(float v) { return flt(v); } basic_ostream &operator<<(long double v) { return flt((double)v); } basic_ostream &operator<<(const void *p) { return num((unsigned long)(size_t)p); } basic_ostream &operator<<(nullptr_t) { return pad("nullptr", 7); }
    basic_ostream &operator<<(basic_streambuf<C, T> *b) { for (;;) { auto c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); } return *this; }
    basic_ostream &sx_str(const C *s, size_t n) { return pad(s, n); }
};
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.sx_str(s, T::length(s)); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.sx_str(&c, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char k = (char)c; return o.sx_str(&k, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char k = (char)c; return o.sx_str(&k, 1); }
template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put(C('\n')); return o.flush(); }
template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; } inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; } inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; } inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
protected: streamsize gc_ = 0;
    template <class I> basic_istream &num(I &v) { string s; skip(); for (;;) { auto c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } char k = T::to_char_type(c); if (!((k >= '0' && k <= '9') || k == '-' || k == '+' || (numeric_limits<I>::is_iec559 && (k == '.' || k == 'e' || k == 'E')))) break; s += k; this->rdbuf()->sbumpc(); } if (s.empty()) { v = 0; this->setstate(ios_base::failbit); } else if constexpr (numeric_limits<I>::is_iec559) v = (I)strtod(s.c_str(), nullptr); else if constexpr (numeric_limits<I>::is_signed) v = (I)strtoll(s.c_str(), nullptr, 10); else v = (I)strtoull(s.c_str(), nullptr, 10); return *this; }
    void skip() { for (;;) { auto c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) break; char k = T::to_char_type(c); if (k != ' ' && k != '\n' && k != '\t' && k != '\r') break; this->rdbuf()->sbumpc(); } }
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    class sentry { bool ok_; public: explicit sentry(basic_istream &i, bool noskip = false) : ok_(i.good()) { if (!ok_) i.setstate(ios_base::failbit); else if (!noskip && (i.flags() & ios_base::skipws)) i.skip(); } explicit operator bool() const { return ok_; } };
    explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); } virtual ~basic_istream() {}
    streamsize gcount() const { return gc_; }
    basic_istream &read(C *s, streamsize n) { gc_ = 0; sentry g(*this, true); if (g) { gc_ = this->rdbuf()->sgetn(s, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
    streamsize readsome(C *s, streamsize n) { gc_ = 0; sentry g(*this, true); if (g) gc_ = this->rdbuf()->sgetn(s, n); return gc_; }
    int_type get() { gc_ = 0; sentry g(*this, true); int_type c = T::eof(); if (g) { c = this->rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1; } return c; }
    basic_istream &get(C &c) { int_type k = get(); if (!T::eq_int_type(k, T::eof())) c = T::to_char_type(k); return *this; }
    int_type peek() { gc_ = 0; sentry g(*this, true); int_type c = T::eof(); if (g) { c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); } return c; }
    basic_istream &ignore(streamsize n = 1, int_type d = T::eof()) { gc_ = 0; while (gc_ < n) { int_type c = get(); if (T::eq_int_type(c, T::eof())) break; if (T::eq_int_type(c, d)) break; } return *this; }
    basic_istream &unget() { this->clear(this->rdstate() & ~ios_base::eofbit); if (T::eq_int_type(this->rdbuf()->sungetc(), T::eof())) this->setstate(ios_base::badbit); return *this; } basic_istream &putback(C) { return unget(); } int sync() { return 0; }
    pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::in); }
    basic_istream &seekg(pos_type p) { return seekg(off_type(p), ios_base::beg); }
    basic_istream &seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
    basic_istream &operator>>(int &v) { return num(v); } basic_istream &operator>>(unsigned &v) { return num(v); } basic_istream &operator>>(long &v) { return num(v); } basic_istream &operator>>(unsigned long &v) { return num(v); } basic_istream &operator>>(double &v) { return num(v); } basic_istream &operator>>(long long &v) { return num(v); } basic_istream &operator>>(unsigned long long &v) { return num(v); } basic_istream &operator>>(float &v) { return num(v); }
    basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); } basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    friend class sentry;
};
template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { typename basic_istream<C, T>::sentry s(i, false); return i; }
template <typename T, typename A> inline basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s, char d) { s.clear(); bool any = false; for (;;) { auto c = i.rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if (T::to_char_type(c) == d) break; s += T::to_char_type(c); } return i; }
template <typename T, typename A> inline basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s) { return getline(i, s, '\n'); }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; explicit basic_iostream(basic_streambuf<C, T> *b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} };

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
    basic_string<C, T, A> s_; size_t g_ = 0;
public:
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    basic_stringbuf() {} explicit basic_stringbuf(const basic_string<C, T, A> &s, ios_base::openmode = 0) : s_(s) {}
    basic_string<C, T, A> str() const { return s_; } void str(const basic_string<C, T, A> &s) { s_ = s; g_ = 0; }
protected:
    int_type underflow() override { return g_ < s_.size() ? T::to_int_type(s_[g_]) : T::eof(); } int_type uflow() override { return g_ < s_.size() ? T::to_int_type(s_[g_++]) : T::eof(); } int_type pback() override { return g_ ? T::to_int_type(s_[--g_]) : T::eof(); }
    streamsize xsgetn(C *p, streamsize n) override { streamsize k = (streamsize)(s_.size() - g_); if (k > n) k = n; s_.copy(p, k, g_); g_ += k; return k; } streamsize xsputn(const C *p, streamsize n) override { s_.append(p, n); return n; } int_type overflow(int_type c) override { if (!T::eq_int_type(c, T::eof())) s_ += T::to_char_type(c); return T::not_eof(c); }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override { if (!(m & ios_base::in)) return pos_type(off_type(s_.size())); off_type b = d == ios_base::beg ? 0 : d == ios_base::cur ? (off_type)g_ : (off_type)s_.size(); b += o; if (b < 0 || b > (off_type)s_.size()) return pos_type(off_type(-1)); g_ = b; return pos_type(b); }
};
#define SX_SS(N, BASE) template <typename C, typename T, typename A> class N : public BASE<C, T> { basic_stringbuf<C, T, A> b_; public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; N() : BASE<C, T>(nullptr) { this->init(&b_); } explicit N(ios_base::openmode) : BASE<C, T>(nullptr) { this->init(&b_); } explicit N(const basic_string<C, T, A> &s, ios_base::openmode = 0) : BASE<C, T>(nullptr), b_(s) { this->init(&b_); } basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A> &s) { b_.str(s); } basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); } };
SX_SS(basic_istringstream, basic_istream) SX_SS(basic_ostringstream, basic_ostream) SX_SS(basic_stringstream, basic_iostream)
#undef SX_SS
_GLIBCXX_END_NAMESPACE_CXX11

// file buffer: unbuffered reads of the node's bytes; writes are collected and reach the file on flush/close
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
    sxfs::Node *n_ = nullptr; size_t pos_ = 0; bool open_ = false, in_ = false, out_ = false, app_ = false, lost_ = false; vector<char> pend_;
public:
    typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    basic_filebuf() {} ~basic_filebuf() { close(); } bool is_open() const { return open_; }
    basic_filebuf *open(const char *p, ios_base::openmode m) { return open(string(p), m); }
    basic_filebuf *open(const string &path, ios_base::openmode m) {
        if (open_) return nullptr; sxfs::point(); sxfs::Atomic at; bool wr = (m & (ios_base::out | ios_base::app)) != 0; string p = sxfs::norm(path); sxfs::Node *n = sxfs::find(p);
        bool notdir = !path.empty() && path.back() == '/';
        if (wr ? sxfs::fault(sxfs::OpenW, "fault open for writing") : sxfs::fault(sxfs::OpenR, "fault open for reading")) return nullptr;
        if (wr && !(m & ios_base::in)) { if (!n) { if (notdir || !sxfs::isDir(sxfs::parent(p))) return nullptr; n = sxfs::add(p, false); } else if (n->dir) return nullptr; if (!(m & ios_base::app)) n->data.clear(); ++sxfs::fs().mutations; }
        else { if (!n) { if ((m & ios_base::trunc) && sxfs::isDir(sxfs::parent(p))) n = sxfs::add(p, false); else return nullptr; } if (n->dir && wr) return nullptr; if (m & ios_base::trunc) { n->data.clear(); ++sxfs::fs().mutations; } }
        n_ = n; open_ = true; out_ = wr; in_ = (m & ios_base::in) != 0; app_ = (m & ios_base::app) != 0; pos_ = (m & (ios_base::app | ios_base::ate)) ? n->data.size() : 0; lost_ = false; pend_.clear();
        if (wr) { if (n->writers + n->readers > 0) ++sxfs::fs().conflicts; ++n->writers; } else { if (n->writers > 0) ++sxfs::fs().conflicts; ++n->readers; }
        return this; }
    basic_filebuf *close() {
        if (!open_) return nullptr; if (out_) sxfs::point(); sxfs::Atomic at; bool ok = true;
        if (out_) { ok = drain(sxfs::Close, "fault close"); --n_->writers; } else --n_->readers; open_ = false; n_ = nullptr; return ok ? this : nullptr; }
protected:
    // move collected bytes to the file; a fault loses a suffix of them
    bool drain(sxfs::Op op, const char *nm) {
        bool bad = !pend_.empty() && sxfs::fault(op, nm); size_t k = bad ? pend_.size() - 1 : pend_.size();
        if (k) { if (n_->data.size() < pos_ + k) n_->data.resize(pos_ + k); memcpy(n_->data.data() + pos_, pend_.data(), k); pos_ += k; ++sxfs::fs().mutations; }
        pend_.clear(); if (bad) lost_ = true; return !bad; }
    int_type underflow() override { if (!open_ || !in_) return T::eof(); sxfs::Atomic at; if (n_->dir) return T::eof(); if (pos_ == 0 && sxfs::fault(sxfs::Read, "fault read")) return T::eof(); return pos_ < n_->data.size() ? T::to_int_type(n_->data[pos_]) : T::eof(); }
    int_type uflow() override { int_type c = underflow(); if (!T::eq_int_type(c, T::eof())) ++pos_; return c; } int_type pback() override { return pos_ ? (int_type)T::to_int_type(n_->data[--pos_]) : T::eof(); }
    streamsize xsgetn(C *p, streamsize n) override {
        if (!open_ || !in_ || n <= 0) return 0; sxfs::point(); sxfs::Atomic at; if (n_->dir) return 0; size_t have = pos_ < n_->data.size() ? n_->data.size() - pos_ : 0; size_t k = (size_t)n < have ? (size_t)n : have;
        if (k && sxfs::fault(sxfs::Read, "fault read")) k = sx_choose("short read", 2) ? k - 1 : 0;
        if (k) memcpy(p, n_->data.data() + pos_, k); pos_ += k; return (streamsize)k; }
    streamsize xsputn(const C *p, streamsize n) override {
        if (!open_ || !out_ || lost_) return 0; if (n <= 0) return 0; sxfs::Atomic at;
        if (sxfs::fault(sxfs::Write, "fault write")) { lost_ = true; return 0; }
        pend_.insert(pend_.end(), p, p + n); return n; }
    int_type overflow(int_type c) override { if (T::eq_int_type(c, T::eof())) return T::not_eof(c); C k = T::to_char_type(c); return xsputn(&k, 1) == 1 ? c : T::eof(); }
    int sync() override { if (!open_ || !out_) return 0; sxfs::point(); sxfs::Atomic at; return drain(sxfs::Close, "fault flush") ? 0 : -1; }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override {
        if (!open_) return pos_type(off_type(-1)); sxfs::Atomic at; if (out_ && !pend_.empty() && !(o == 0 && d == ios_base::cur)) { if (!drain(sxfs::Close, "fault flush")) return pos_type(off_type(-1)); }
        if (n_->dir) return pos_type(off_type(d == ios_base::end ? 0x7fffffffffffffffll : 0));
        off_type b = d == ios_base::beg ? 0 : d == ios_base::cur ? (off_type)(pos_ + pend_.size()) : (off_type)n_->data.size(); b += o; if (b < 0) return pos_type(off_type(-1)); if (!(o == 0 && d == ios_base::cur)) pos_ = (size_t)b; return pos_type(b); }
};
#define SX_FS(N, BASE, DEF, ALW) template <typename C, typename T> class N : public BASE<C, T> { basic_filebuf<C, T> b_; public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; \
    N() : BASE<C, T>(nullptr) { this->init(&b_); } explicit N(const char *p, ios_base::openmode m = DEF) : BASE<C, T>(nullptr) { this->init(&b_); open(p, m); } explicit N(const string &p, ios_base::openmode m = DEF) : BASE<C, T>(nullptr) { this->init(&b_); open(p, m); } \
    template <class P, class = decltype(std::declval<const P &>().native())> explicit N(const P &p, ios_base::openmode m = DEF) : BASE<C, T>(nullptr) { this->init(&b_); open(p.native(), m); } \
    void open(const string &p, ios_base::openmode m = DEF) { if (!b_.open(p, m | ALW)) this->setstate(ios_base::failbit); else this->clear(); } void open(const char *p, ios_base::openmode m = DEF) { open(string(p), m); } template <class P, class = decltype(std::declval<const P &>().native())> void open(const P &p, ios_base::openmode m = DEF) { open(p.native(), m); } \
    bool is_open() const { return b_.is_open(); } void close() { if (!b_.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&b_); } };
SX_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in) SX_FS(basic_ofstream, basic_ostream, ios_base::out, ios_base::out) SX_FS(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)
#undef SX_FS
struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; } template <typename C> struct _Setfill { C c; }; template <typename C> inline _Setfill<C> setfill(C c) { return {c}; } struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return {n}; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; } template <typename C, typename T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setw s) { o.width(s.n); return o; } template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> s) { o.fill(s.c); return o; } template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision s) { o.precision(s.n); return o; }
struct _SxNullBuf : basic_streambuf<char, char_traits<char>> { streamsize xsputn(const char *, streamsize n) override { return n; } int_type overflow(int_type c) override { return char_traits<char>::not_eof(c); } };
inline _SxNullBuf sxrt_nullbuf; inline basic_ostream<char, char_traits<char>> cout{&sxrt_nullbuf}, cerr{&sxrt_nullbuf}, clog{&sxrt_nullbuf}; inline basic_istream<char, char_traits<char>> cin{&sxrt_nullbuf};
template <typename O, typename X> requires (!is_lvalue_reference_v<O>) && is_base_of_v<ios_base, O> inline O &&operator<<(O &&o, const X &x) { o << x; return std::move(o); }
template <typename O, typename X> requires (!is_lvalue_reference_v<O>) && is_base_of_v<ios_base, O> inline O &&operator>>(O &&o, X &&x) { o >> x; return std::move(o); }
}
#include <bits/ostream_insert.h>
