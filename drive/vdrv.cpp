// vdrv FILE [--log N]: runs the plans of FILE (separated by lines "----"), each
// in a process of its own, and prints one line per plan: index, how the process
// ended, hash of the log. With --log N only plan N runs and its log is printed.
#include <fcntl.h>
#include <errno.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>

#include "driver.h"

#if defined(__SANITIZE_ADDRESS__)
#define SANITIZED
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SANITIZED
#endif
#endif

namespace {

int g_fd = -1;
drv::Driver* g_driver = NULL;
std::ostringstream* g_cout = NULL;

void writeAll(const std::string& s) {
    std::size_t at = 0;
    while (at < s.size()) {
        ssize_t n = write(g_fd, s.data() + at, s.size() - at);
        if (n <= 0) break;
        at += (std::size_t)n;
    }
}

void flushLog() {
    writeAll(g_driver->log);
    std::string out = g_cout->str();
    if (!out.empty()) writeAll("stdout " + drv::enc(out) + "\n");
}

} // namespace

extern "C" void __wrap_exit(int status) {
    // the process ends here: what was observed so far and what was written
    g_driver->flushReleased();
    g_driver->say("exit " + drv::num(status));
    flushLog();
    _exit(0);
}

extern int secondUnit();

// a small file system of its own
static int pathMode(const char* p, mode_t* m) {
    std::string s(p);
    if (s.compare(0, 3, "/p/") != 0) return ENOENT;
    if (s == "/p/loop") return ELOOP;
    if (s.compare(3, 1, "f") == 0 || s == "/p/lf") *m = S_IFREG | 0644;
    else if (s.compare(3, 1, "d") == 0 && s != "/p/dangling") *m = S_IFDIR | 0755;
    else if (s == "/p/ld") *m = S_IFDIR | 0755;
    else if (s.compare(3, 1, "o") == 0) *m = S_IFIFO | 0644;
    else return ENOENT;
    return 0;
}
extern "C" int __wrap_stat(const char* p, struct stat* s) {
    std::memset(s, 0, sizeof *s);
    errno = pathMode(p, &s->st_mode);
    return errno == 0 ? 0 : -1;
}
extern "C" int __wrap_lstat(const char* p, struct stat* s) {
    int r = __wrap_stat(p, s);
    if (r == 0 && std::strncmp(p, "/p/l", 4) == 0) s->st_mode = S_IFLNK | 0777;
    return r;
}

static void child(const std::string& text) {
    struct rlimit cpu = {5, 5}, core = {0, 0};
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_CORE, &core);
#if !defined(SANITIZED)
    struct rlimit as = {(rlim_t)1 << 30, (rlim_t)1 << 30};
    setrlimit(RLIMIT_AS, &as);
#endif
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    g_cout = new std::ostringstream;
    std::cout.rdbuf(g_cout->rdbuf());
    g_driver = new drv::Driver;
    g_driver->refusals = true;
    g_driver->run(drv::parsePlan(text));
    flushLog();
    _exit(0);
}

int main(int argc, char** argv) {
    if (argc < 2 || secondUnit() != 0) return 2;
    std::ifstream f(argv[1]);
    std::vector<std::string> plans(1);
    std::string line;
    while (std::getline(f, line)) {
        if (line == "----") plans.push_back("");
        else plans.back() += line + "\n";
    }
    long only = argc > 3 ? std::atol(argv[3]) : -1;
    for (std::size_t i = 0; i < plans.size(); ++i) {
        if (plans[i].empty() || (only >= 0 && (long)i != only)) continue;
        int p[2];
        if (pipe(p) != 0) return 2;
        std::cout.flush();
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            close(p[0]);
            g_fd = p[1];
            child(plans[i]);
        }
        close(p[1]);
        unsigned long h = 14695981039346656037UL;
        std::string all;
        char b[65536];
        ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) {
            for (ssize_t k = 0; k < n; ++k) h = (h ^ (unsigned char)b[k]) * 1099511628211UL;
            if (only >= 0) all.append(b, (std::size_t)n);
        }
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        const char* how = WIFEXITED(st) ? "exit" : "signal";
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
        if (only >= 0) std::cout << all << how << " " << code << "\n";
        else std::printf("%lu %s %d %lx\n", (unsigned long)i, how, code, h);
        if (!WIFEXITED(st) || code != 0) break; // the first one decides
    }
    return 0;
}
