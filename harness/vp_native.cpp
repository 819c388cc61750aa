// Native runtime of the harness interface: replays concrete inputs.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <new>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <sys/wait.h>

namespace {
struct Val { std::string name; unsigned width; std::uint64_t v; };
std::vector<Val> vals;
std::size_t pos = 0;
bool trap_ok = false, leak_check = true;
long live = 0;
bool counting = false;
[[noreturn]] void finish(const char* what, const char* msg) {
    std::printf("END %s %s\n", what, msg);
    std::fflush(stdout);
    _exit(0);
}
std::uint64_t take(const char* name, unsigned w) {
    if (pos >= vals.size()) finish("desync", name);
    if (vals[pos].width != w || vals[pos].name != name) finish("desync", name);
    return vals[pos++].v;
}
void on_trap(int s) {
    if (trap_ok) { const char m[] = "END trap expected\n"; std::fflush(stdout); (void)!write(1, m, sizeof m - 1); _exit(0); }
    const char m[] = "END fail trap signal\n"; std::fflush(stdout); (void)!write(1, m, sizeof m - 1); _exit(0); (void)s;
}
}
extern "C" {
std::uint8_t vp_u8(const char* n) { return std::uint8_t(take(n, 8)); }
std::uint16_t vp_u16(const char* n) { return std::uint16_t(take(n, 16)); }
std::uint32_t vp_u32(const char* n) { return std::uint32_t(take(n, 32)); }
std::uint64_t vp_u64(const char* n) { return take(n, 64); }
void vp_bytes(void* p, std::size_t n, const char* name) { for (std::size_t i = 0; i < n; ++i) static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(take(name, 8)); }
void vp_assume_(int c) { if (!c) finish("assume", ""); }
void vp_assert_(int c, const char* msg) { if (!c) finish("fail", msg); }
void vp_observe_(const char* n, std::uint64_t v) { std::printf("OBS %s %llu\n", n, (unsigned long long)v); }
std::uint64_t vp_split_(std::uint64_t v) { return v; }
int vp_fork_(int c) { return c; }
void vp_expect_trap() { trap_ok = true; }
void vp_no_leak_check() { leak_check = false; }
int vp_is_symbolic_engine() { return 0; }
}
void* operator new(std::size_t n) { if (counting) ++live; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && counting) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

int main(int argc, char** argv) {
    if (argc < 2) return 2;
    std::FILE* f = std::fopen(argv[1], "r");
    if (!f) return 2;
    std::string harness;
    std::vector<Val> cur;
    char buf[4096];
    int idx = 0;
    while (std::fgets(buf, sizeof buf, f)) {
        char a[2048]; unsigned w; unsigned long long v;
        if (std::sscanf(buf, "H %2000s", a) == 1) { harness = a; cur.clear(); }
        else if (std::sscanf(buf, "V %2000s %u %llu", a, &w, &v) == 3) cur.push_back({a, w, v});
        else if (buf[0] == 'E') {
            std::printf("CASE %d %s\n", idx++, harness.c_str());
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                vals = cur; pos = 0;
                signal(SIGTRAP, on_trap); signal(SIGILL, on_trap);
                alarm(20);
                void (*fn)() = reinterpret_cast<void (*)()>(dlsym(nullptr, harness.c_str()));
                if (!fn) finish("missing", harness.c_str());
                std::set_terminate([] { finish("fail", "std::terminate"); });
                counting = true;
                fn();
                counting = false;
                if (leak_check && live != 0) finish("fail", "leak");
                finish("ok", "");
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) std::printf("END fail signal %d\n", WTERMSIG(st));
            else if (WEXITSTATUS(st) != 0) std::printf("END fail sanitizer exit %d\n", WEXITSTATUS(st));
            std::fflush(stdout);
        }
    }
    return 0;
}
