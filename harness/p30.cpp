// P30: the directories of the application and of the user.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <functional>
#include <Balau/Resource/File.hpp>
#include <Balau/Util/App.hpp>
#include "gen.hpp"
#include <filesystem>
#include <optional>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>

using namespace Balau;
using Balau::Util::App;
using Balau::Util::User;

namespace {

// The value of an environment variable: unset, blank, or a folder maybe within blanks.
struct Variable {
	std::string name;
	bool set = false;
	std::string value, path;
	void apply() const { if (set) setenv(name.c_str(), value.c_str(), 1); else unsetenv(name.c_str()); }
};

Variable variable(pbt::Data & d, const std::string & name, const std::string & folder) {
	Variable v;
	v.name = name;
	switch (d.upto(4)) {
		case 0: break;
		case 1: v.set = true; v.value = d.pick({ "", " ", "  ", "   " }); break;
		case 2: v.set = true; v.path = folder; v.value = d.pick({ " ", "", "  " }) + folder + d.pick({ " ", "", "  " }); break;
		default: v.set = true; v.path = folder; v.value = folder; break;
	}
	d.note(name + (v.set ? "=" + pbt::show(v.value) : " unset"));
	return v;
}

std::string name(pbt::Data & d) {
	std::string s = "x" + gen::ident(d, 6);
	if (d.chance(1, 4)) s += d.pick({ "-1.0", ".d", "_a", "é" });
	return s;
}

std::string normal(const Resource::File & f) { return std::filesystem::path(f.toRawString()).lexically_normal().string(); }

// The third group of a case: everything below happens in a folder of the case, which is removed.
struct Folder {
	std::string path;
	Folder() {
		char t[] = "/tmp/p30.XXXXXX";
		if (mkdtemp(t) == nullptr) abort();
		chmod(t, 0755);
		path = t;
	}
	~Folder() { std::error_code c; std::filesystem::remove_all(path, c); }
};

struct passwd entry(uid_t u) {
	setpwent();
	while (auto * p = getpwent()) if (p->pw_uid == u) return *p;
	return {};
}

// Run the code in a child process as the user; the text it returns.
std::string asUser(uid_t uid, const std::function<std::string ()> & code) {
	int fds[2];
	if (pipe(fds) != 0) abort();
	fflush(nullptr);
	const pid_t child = fork();
	if (child == 0) {
		alarm(20);
		if (uid != 0 && (setresgid(65534, 65534, 65534) != 0 || setresuid(uid, uid, uid) != 0)) _exit(9);
		const std::string s = "ok " + code();
		size_t done = 0;
		while (done < s.size()) { const ssize_t w = write(fds[1], s.data() + done, s.size() - done); if (w <= 0) break; done += (size_t) w; }
		_exit(0);
	}
	close(fds[1]);
	std::string r;
	char b[4096];
	ssize_t n;
	while ((n = read(fds[0], b, sizeof b)) > 0) r.append(b, (size_t) n);
	close(fds[0]);
	int status = 0;
	waitpid(child, &status, 0);
	if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) return WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status));
	return r;
}

} // namespace

PBT(user_directories, 600, 10000, PBT_FRESH, 60) {
	Folder folder;
	const bool config = d.boolean();
	const Variable xdg = variable(d, config ? "XDG_CONFIG_HOME" : "XDG_DATA_HOME", folder.path + "/" + name(d));
	const Variable other = variable(d, config ? "XDG_DATA_HOME" : "XDG_CONFIG_HOME", folder.path + "/other");
	const Variable home = variable(d, "HOME", folder.path + "/" + name(d) + "/h");
	const std::string group = name(d), app = name(d);
	xdg.apply();
	other.apply();
	home.apply();
	if (xdg.path.empty()) d.nontrivial();
	const std::string homePath = !home.path.empty() ? home.path : entry(getuid()).pw_dir;
	const std::string expected = (!xdg.path.empty() ? xdg.path : homePath + (config ? "/.config" : "/.local/share")) + "/" + group + "/" + app;
	auto get = [&] (const std::string & g, const std::string & a) {
		return config ? App::getUserApplicationConfigDirectory(g, a) : App::getUserApplicationDataDirectory(g, a);
	};
	const std::string actual = normal(get(group, app));
	CHECK(actual == std::filesystem::path(expected).lexically_normal().string(), "the directory is " + pbt::show(actual) + " instead of " + pbt::show(expected));
	CHECK(normal(User::getHomeDirectory()) == std::filesystem::path(homePath).lexically_normal().string(), "the home directory is " + pbt::show(normal(User::getHomeDirectory())) + " instead of " + pbt::show(homePath));
	// It is fixed at the first call.
	setenv(config ? "XDG_CONFIG_HOME" : "XDG_DATA_HOME", (folder.path + "/changed").c_str(), 1);
	CHECK(normal(get(group, app)) == actual, "the directory changed after the first call");
}

PBT(global_directories, 200, 2000, PBT_FRESH, 60) {
	const std::string group = name(d), app = name(d);
	d.note(group + " " + app);
	d.nontrivial();
	const std::string program = std::filesystem::read_symlink("/proc/self/exe").parent_path().parent_path().string() + "/share/" + group + "/" + app;
	const std::string data = normal(App::getGlobalApplicationDataDirectory(group, app)), config = normal(App::getGlobalApplicationConfigDirectory(group, app));
	CHECK(data == program + "/data", "the data directory is " + pbt::show(data));
	CHECK(config == program + "/config", "the config directory is " + pbt::show(config));
}

PBT(runtime_directory, 500, 6000, PBT_FRESH, 60) {
	Folder folder;
	const Variable xdg = variable(d, "XDG_RUNTIME_DIR", folder.path + "/" + name(d));
	const Variable tmp = variable(d, "TMPDIR", folder.path + "/" + name(d) + "/t");
	const bool fallback = xdg.path.empty() && tmp.path.empty();
	const std::string group = fallback ? "p30-" + folder.path.substr(folder.path.size() - 6) : name(d), app = name(d);
	const std::string user = entry(geteuid()).pw_name;
	const std::string expected = (!xdg.path.empty() ? xdg.path : !tmp.path.empty() ? tmp.path : "/tmp/" + user) + "/" + group + "/" + app;
	struct Clean {
		std::string path;
		~Clean() { std::error_code c; if (!path.empty()) std::filesystem::remove_all(path, c); }
	} clean;
	if (fallback) {
		const std::string userFolder = "/tmp/" + user;
		clean.path = std::filesystem::exists(userFolder) ? userFolder + "/" + group : userFolder;
	}
	const int before = (int) d.upto(3); // what exists already
	if (before == 1) std::filesystem::create_directories(std::filesystem::path(expected).parent_path());
	if (before == 2) { std::filesystem::create_directories(expected); chmod(expected.c_str(), 0700); std::ofstream(expected + "/kept") << "kept"; }
	const int threads = d.chance(1, 4) ? (int) d.range(2, 4) : 1;
	umask((mode_t) d.pick({ 022, 002, 077, 0 }));
	d.note("group " + group + " app " + app + " before " + std::to_string(before) + " threads " + std::to_string(threads));
	xdg.apply();
	tmp.apply();
	if (before != 2) d.nontrivial();
	std::vector<std::string> results((size_t) threads);
	if (threads == 1) {
		results[0] = normal(App::getApplicationRuntimeDataDirectory(group, app));
	} else {
		std::vector<std::thread> all;
		for (int k = 0; k < threads; ++k) all.emplace_back([&, k] { results[(size_t) k] = normal(App::getApplicationRuntimeDataDirectory(group, app)); });
		for (auto & t : all) t.join();
	}
	for (auto & r : results) CHECK(r == expected, "the directory is " + pbt::show(r) + " instead of " + pbt::show(expected));
	struct stat s {};
	CHECK(stat(expected.c_str(), &s) == 0 && S_ISDIR(s.st_mode), "the directory was not created");
	CHECK(s.st_uid == geteuid(), "the directory is owned by another user");
	char mode[16];
	snprintf(mode, sizeof mode, "%04o", s.st_mode & 07777);
	CHECK((s.st_mode & 07777) == 0700, std::string("the access mode of the directory is ") + mode);
	if (before == 2) CHECK(std::filesystem::exists(expected + "/kept"), "the contents of the directory were lost");
	CHECK(normal(App::getApplicationRuntimeDataDirectory(group, app)) == expected, "the second call gave something else");
}

PBT(users, 300, 3000) {
	// Users with and without an entry in the password file.
	const uid_t uid = d.pick({ (uid_t) 0, (uid_t) 65534, (uid_t) 1, (uid_t) 2, (uid_t) 54321, (uid_t) 61234 });
	const bool home = d.boolean();
	const int which = (int) d.upto(1);
	const struct passwd e = entry(uid);
	const bool known = e.pw_name != nullptr;
	const std::string userName = known ? e.pw_name : "", userHome = known ? e.pw_dir : "";
	d.note("user " + std::to_string(uid) + (known ? " " + userName : " without an entry") + (home ? " with HOME " : " without HOME ") + (which == 0 ? "name" : "home"));
	d.nontrivial();
	const std::string result = asUser(uid, [&] () -> std::string {
		if (home) setenv("HOME", "/somewhere/else", 1); else unsetenv("HOME");
		try {
			return which == 0 ? User::getUserName() : normal(User::getHomeDirectory());
		} catch (const Exception::BalauException &) {
			return "exception";
		}
	});
	const std::string expected = which == 0 ? (known ? userName : "exception") : home ? "/somewhere/else" : known ? std::filesystem::path(userHome).lexically_normal().string() : "exception";
	CHECK(result == "ok " + expected, "got " + pbt::show(result) + " instead of " + pbt::show(expected));
}
