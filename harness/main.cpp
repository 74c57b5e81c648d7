#include "harness.h"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

std::map<std::string, Cmd>& commands() { static std::map<std::string, Cmd> c; return c; }
std::string g_dir;
static int g_out = -1;

static void emit(const std::string& s) {
    std::string t = s + "\n";
    size_t o = 0;
    while (o < t.size()) {
        ssize_t n = write(g_out, t.data() + o, t.size() - o);
        if (n <= 0) _Exit(71);
        o += (size_t)n;
    }
}

static void run_line(const std::string& line, int no) {
    std::string op = line.substr(0, line.find(' '));
    std::string rest = line.size() > op.size() ? line.substr(op.size() + 1) : "";
    Ev e(op);
    e.i("ln", no);
    In in(rest, e);
    auto it = commands().find(op);
    if (it == commands().end()) { fprintf(stderr, "harness: unknown command %s\n", op.c_str()); _Exit(70); }
    try { it->second(in, e); } catch (const Skip&) { return; }
    if (e.s.size() > 16000000) _Exit(98);   // no explored history yields an object of that size
    emit(e.s + "}");
}

// harness <scripts> <events> <scratchdir> [seconds per script]
int main(int argc, char** argv) {
    if (argc < 4) return 70;
    std::ifstream f(argv[1]);
    g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    g_dir = argv[3];
    int limit = argc > 4 ? atoi(argv[4]) : 20;
    if (!f || g_out < 0) return 70;
    signal(SIGXFSZ, SIG_IGN);
    std::vector<std::pair<std::string, std::vector<std::string>>> scripts;
    std::string l;
    while (std::getline(f, l)) {
        if (l.empty()) continue;
        if (l.compare(0, 7, "script ") == 0) scripts.push_back({l.substr(7), {}});
        else if (!scripts.empty()) scripts.back().second.push_back(l);
    }
    int no = 0;
    for (auto& s : scripts) {
        emit("{\"op\":\"Reset\",\"ln\":0,\"id\":" + Ev::str(s.first) + "}");
        fflush(nullptr);
        g_dir = std::string(argv[3]) + "/" + std::to_string(no);   // a directory of its own, removed afterwards
        mkdir(g_dir.c_str(), 0755);
        pid_t pid = fork();
        if (pid < 0) return 71;
        if (pid == 0) {
            alarm(limit);
            struct rlimit r = {0, 0};
            setrlimit(RLIMIT_CORE, &r);
            int k = 0;
            for (auto& c : s.second) run_line(c, ++k);
            fflush(nullptr);
            _Exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::error_code ec;
        std::filesystem::remove_all(g_dir, ec);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) {
            fprintf(stderr, "harness: bad script %s\n", s.first.c_str());
            return 70;
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            Ev e("Crash");
            e.i("ln", 0);
            e.i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
            e.i("code", WIFEXITED(st) ? WEXITSTATUS(st) : 0);
            emit(e.s + "}");
            break;   // rejected there; what follows would not be looked at
        }
        no++;
    }
    emit("{\"op\":\"Reset\",\"ln\":0,\"id\":\"end\"}");
    return 0;
}
