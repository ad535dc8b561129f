#include <sym_streams.h>
// weak defaults: no file can be opened, written data is dropped
__attribute__((weak)) __sym_file __symfs_open_read(const char*) { return {false, std::string()}; }
__attribute__((weak)) void __symfs_open_write(const char*, bool* ok) { *ok = false; }
__attribute__((weak)) void __symfs_write(const char*, const std::string&) {}
namespace std {
static basic_streambuf<char, char_traits<char>> __cout_buf, __cerr_buf, __cin_buf;
ostream cout(&__cout_buf), cerr(&__cerr_buf), clog(&__cerr_buf); istream cin(&__cin_buf);
}
