// The in-memory input file: values are found case-insensitively, repeated keys are joined, numbers and booleans
// are parsed completely by type, absent or empty values give the default.
#include <algorithm>
#include <cctype>
#include <limits>
#include <map>
#include <string>
#include <utility>
#include <inih/INIReader.hpp>
#include "hv.hpp"
using Map = std::map<std::string, std::string>;
extern "C" {
bool hv_parses(char const* how, std::string const* s, int base) noexcept;
long hv_parsed_i(char const* how, std::string const* s, int base) noexcept;
double hv_parsed_f(char const* how, std::string const* s, int base) noexcept;
void hv_lower(std::string* out, std::string const* in) noexcept;
typedef int (*ini_handler)(void* user, char const* section, char const* name, char const* value);
ini_handler the_handler;
void* the_user;
char const* the_file;
// the parser, replaced: reports one arbitrary entry and an arbitrary status
int ini_parse(char const* filename, ini_handler handler, void* user)
{
    the_handler = handler;
    the_user = user;
    the_file = filename;
    return static_cast<int>(hv_isym("status"));
}
}
namespace {
INIReader& rd() { return *static_cast<INIReader*>(hv_obj("ini")); }
Map& values() { return *static_cast<Map*>(hv_obj("ini")); }
std::string sym(char const* n)
{
    std::string s;
    hv_strsym(&s, n);
    return s;
}
std::string key(std::string const& s, std::string const& n)
{
    std::string const k = s + "=" + n;
    std::string r;
    hv_lower(&r, &k);
    return r;
}
std::string value(std::string const& s, std::string const& n, std::string const& d)
{
    Map const& m = values();
    return m.count(key(s, n)) ? m.find(key(s, n))->second : d;
}
// hexadecimal exactly when the digits start with 0x or 0X
int base(std::string const& v)
{
    std::size_t const d = v[0] == '-' || v[0] == '+' ? 1 : 0;
    return v.compare(d, 2, "0x") == 0 || v.compare(d, 2, "0X") == 0 ? 16 : 10;
}
template <class T>
void number(T def, char const* how, bool real, bool present)
{
    std::string const s = sym("section");
    std::string const n = sym("name");
    hv_assume((values().count(key(s, n)) != 0) == present);
    std::string const v = value(s, n, "");
    int const b = v.empty() || real ? 10 : base(v);
    bool ok = v.empty() || hv_parses(how, &v, b);
    if constexpr (std::is_same_v<T, unsigned>) {
        ok = v.empty() || (hv_parses(how, &v, b) && hv_parsed_i(how, &v, b) <= (long)std::numeric_limits<unsigned>::max());
    }
    hv_expect_throw(!ok);
    if constexpr (std::is_floating_point_v<T>) {
        T const r = rd().GetReal(s, n, def);
        hv_eq("value", r, v.empty() ? def : (T)hv_parsed_f(how, &v, b));
    } else {
        T const r = rd().GetInteger(s, n, def);
        hv_eqi("value", (long)r, v.empty() ? (long)def : hv_parsed_i(how, &v, b));
    }
}
} // namespace
extern "C" {
void ini_get()
{
    std::string const s = sym("section");
    std::string const n = sym("name");
    std::string const d = sym("default");
    std::string const r = rd().Get(s, n, d);
    std::string const w = value(s, n, d);
    hv_streq("value or default", &r, &w);
}
#define BOTH(F) \
    void F##_present() { F(true); } \
    void F##_absent() { F(false); }
}
void ini_int(bool p) { number<int>(static_cast<int>(hv_isym("d")), "stoi", false, p); }
void ini_uint(bool p)
{
    long const d = hv_isym("d");
    hv_fact(d);
    hv_fact((long)std::numeric_limits<unsigned>::max() - d);
    number<unsigned>(static_cast<unsigned>(d), "stoul", false, p);
}
void ini_long(bool p) { number<long>(hv_isym("d"), "stol", false, p); }
void ini_ulong(bool p) { number<unsigned long>(hv_isym("d"), "stoul", false, p); }
void ini_llong(bool p) { number<long long>(hv_isym("d"), "stoll", false, p); }
void ini_ullong(bool p) { number<unsigned long long>(hv_isym("d"), "stoull", false, p); }
void ini_float(bool p) { number<float>((float)hv_sym("d"), "stof", true, p); }
void ini_double(bool p) { number<double>(hv_sym("d"), "stod", true, p); }
void ini_bool(bool p)
{
    std::string const s = sym("section");
    std::string const n = sym("name");
    hv_assume((values().count(key(s, n)) != 0) == p);
    bool const d = hv_bsym("d");
    std::string const v = value(s, n, "");
    std::string l;
    hv_lower(&l, &v);
    bool const t = l == "true" || l == "yes" || l == "on" || l == "1";
    bool const f = l == "false" || l == "no" || l == "off" || l == "0";
    hv_expect_throw(!(v.empty() || t || f));
    bool const r = rd().GetBoolean(s, n, d);
    hv_eqb("value", r, v.empty() ? d : t);
}
extern "C" {
BOTH(ini_int)
BOTH(ini_uint)
BOTH(ini_long)
BOTH(ini_ulong)
BOTH(ini_llong)
BOTH(ini_ullong)
BOTH(ini_float)
BOTH(ini_double)
BOTH(ini_bool)
}
// one more entry is reported by the parser, in any state of the reader
void ini_entry(bool present)
{
    hv_assume(static_cast<int>(hv_isym("status")) == 0);
    INIReader const any("");
    std::string const s = sym("section");
    std::string const n = sym("name");
    hv_assume((values().count(key(s, n)) != 0) == present);
    std::string const v = sym("value");
    std::string const old = value(s, n, "");
    std::string const w = old.empty() ? v : old + "\n" + v;
    int const go_on = the_handler(&rd(), s.c_str(), n.c_str(), v.c_str());
    hv_true("the entry is accepted", go_on != 0);
    std::string const r = rd().Get(s, n, "absent");
    hv_streq("repeated keys are joined by line breaks", &r, &w);
}
extern "C" {
BOTH(ini_entry)
void ini_open()
{
    std::string const file = sym("file");
    hv_expect_throw(static_cast<int>(hv_isym("status")) != 0);
    INIReader const r(file);
    std::string const f = the_file;
    hv_streq("the named file is parsed", &f, &file);
    hv_ptreq("into this reader", the_user, &r);
}
}
