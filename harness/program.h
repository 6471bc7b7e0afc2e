// Runs a program with given arguments and input in a scratch directory.
#pragma once
#include "engine.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <limits.h>

namespace prog {

inline std::string here() { char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? n : 0); return s.substr(0, s.rfind('/')); }

struct Scratch {
	std::string dir;
	Scratch() { dir = pbt::scratchDir() + "/run-XXXXXX"; if (!mkdtemp(&dir[0])) pbt::fail("mkdtemp"); }
	~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
	Scratch(const Scratch&) = delete;
	std::string path(const std::string& n) const { return dir + "/" + n; }
	void write(const std::string& n, const std::string& data) const { std::ofstream(path(n), std::ios::binary) << data; }
	std::string read(const std::string& n) const { std::ifstream f(path(n), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
};

struct Result { int code = 0; int signal = 0; std::string out, err; };
// The program runs in the scratch directory, which holds its files.
inline Result run(const Scratch& d, const std::string& program, const std::vector<std::string>& args, const std::string& input) {
	d.write(".in", input);
	pid_t pid = fork();
	if (pid < 0) pbt::fail("fork");
	if (pid == 0) {
		if (chdir(d.dir.c_str())) _exit(120);
		int in = open(".in", O_RDONLY), out = open(".out", O_CREAT | O_TRUNC | O_WRONLY, 0600), err = open(".err", O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(in, 0); dup2(out, 1); dup2(err, 2);
		struct rlimit r = {30, 40}; setrlimit(RLIMIT_CPU, &r);
		struct rlimit fs = {64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &fs);
		std::vector<char*> a; a.push_back((char*)program.c_str()); for (auto& x : args) a.push_back((char*)x.c_str()); a.push_back(nullptr);
		execv(program.c_str(), a.data());
		_exit(121);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Result r;
	if (WIFSIGNALED(st)) r.signal = WTERMSIG(st); else r.code = WEXITSTATUS(st);
	r.out = d.read(".out"); r.err = d.read(".err");
	if (r.code == 120 || r.code == 121) pbt::fail("cannot run " + program);
	return r;
}
inline void expectSane(const Result& r, const std::string& what) {
	if (r.signal) pbt::fail(what + ": killed by signal " + std::to_string(r.signal) + "\n" + r.err.substr(0, 2000));
	if (r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos) pbt::fail(what + ": " + r.err.substr(0, 2500));
}

}
