// Runs every scenario of a file in a process of its own.
#pragma once
#include "mjson.hpp"

#include <csignal>
#include <cstring>
#include <fstream>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// another state of the process: used memory is filled differently, addresses differ
inline void perturb(int k)
{
    if (k == 0) return;
    mallopt(M_PERTURB, k);
    for (int i = 0; i < 64; ++i)
    {
        std::size_t const n = 37 * (i * k % 97 + 1);
        char * p = (char *)std::malloc(n);
        std::memset(p, k, n);
        if (i % 3) std::free(p);
    }
    std::srand(k);
}

template<typename F>
int fork_main(int argc, char ** argv, F run)
{
    using mj::Value;
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    FILE * out = std::fopen(argv[2], "w");
    if (!in || !out) return 2;
    std::string line;
    int const limit = std::getenv("HARNESS_ALARM") ? std::atoi(std::getenv("HARNESS_ALARM")) : 100;
    int hung = 0;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        std::fflush(out);
        pid_t const pid = fork();
        if (pid < 0) return 3;
        if (pid == 0)
        {
            struct rlimit rl{6ul << 30, 6ul << 30};
            setrlimit(RLIMIT_AS, &rl);
            struct rlimit rc{0, 0};
            setrlimit(RLIMIT_CORE, &rc);
            alarm(limit);
            try
            {
                run(mj::parse(line), out);
            }
            catch (std::exception const & ex)
            {
                std::fprintf(stderr, "harness: %s\n", ex.what());
                std::fflush(out);
                _exit(77);
            }
            std::fflush(out);
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        Value ev = Value::obj();
        ev.put("sid", mj::parse(line).at("sid").s);
        // 77: the scenario could not be carried out on what the library returned
        bool const fail = WIFEXITED(status) && WEXITSTATUS(status) == 77;
        ev.put("ev", fail ? "fail" : "crash");
        ev.put("st", fail ? "FAIL" : "CRASH");
        ev.put("sig", WIFSIGNALED(status) ? WTERMSIG(status) : -WEXITSTATUS(status));
        std::string s; ev.dump(s); s += '\n';
        std::fseek(out, 0, SEEK_END);
        // a partial line left by the crash is dropped: events are written whole
        std::fwrite(s.data(), 1, s.size(), out);
        // what hangs once tends to hang always
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM && ++hung >= 2) break;
    }
    std::fclose(out);
    return 0;
}
