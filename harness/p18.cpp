// P18: forked processes: the function runs in the child only, and termination is reported once and as it happened.
#include <Balau/Exception/BalauException.hpp>
#include <boost/predef.h>
#include <vector>
#include <functional>
#include <Balau/Concurrent/Fork.hpp>
#include "gen.hpp"
#include <sys/wait.h>

using namespace Balau::Concurrent;
using Balau::Exception::WaitException;

namespace {

struct Child {
	int pid = 0;
	int release = -1;       // writing end of the pipe that the child reads
	int plan = 0;           // exit status, or minus the signal
	enum State { Running, Dead, Reaped } state = Running;
	int code = 0, status = 0;
};

// Waits, without reaping, until the process is dead.
bool awaitDeath(int pid) {
	for (int i = 0; i < 20000; ++i) {
		siginfo_t info;
		memset(&info, 0, sizeof info);
		if (waitid(P_PID, (id_t) pid, &info, WEXITED | WNOHANG | WNOWAIT) == 0 && info.si_pid == pid) return true;
		usleep(i < 100 ? 50 : 1000);
	}
	return false;
}

struct Cleaner {
	std::vector<Child> children;
	~Cleaner() {
		for (auto & c : children) {
			if (c.release >= 0) close(c.release);
			if (c.pid > 0 && c.state != Child::Reaped) { kill(c.pid, SIGKILL); int st; waitpid(c.pid, &st, 0); }
		}
	}
};

} // namespace

PBT(processes, 4000, 80000) {
	CHECK(Fork::forkSupported(), "no forks");
	Cleaner cleaner;
	auto & cs = cleaner.children;
	const size_t steps = 1 + d.size(14);
	size_t reports = 0, forks = 0;

	auto report = [&] (Child & c, const Fork::TerminationReport & r, bool expectReport) {
		if (!expectReport) { CHECK(r.pid == 0 && r.code == 0 && r.exitStatus == 0, "a report about a process that has not terminated"); return; }
		CHECK(r.pid == c.pid && r.code == c.code && r.exitStatus == c.status, "report " << r.pid << " " << r.code << " " << r.exitStatus << ", not " << c.pid << " " << c.code << " " << c.status);
		c.state = Child::Reaped;
		++reports;
	};
	auto die = [&] (Child & c) {
		if (c.release >= 0) { close(c.release); c.release = -1; }
		CHECK(awaitDeath(c.pid), "the child does not terminate");
		c.state = Child::Dead;
	};

	for (size_t step = 0; step < steps; ++step) {
		const size_t op = cs.empty() ? 0 : d.weighted({ 4, 3, 3, 3, 2, 3, 1 });
		if (op == 0) {
			if (cs.size() >= 6) continue;
			Child c;
			int p[2], out[2];
			if (pipe(p) != 0 || pipe(out) != 0) d.discard();
			const bool signalled = d.chance(1, 4);
			const int variant = (int) d.draw(2);
			c.plan = signalled ? -(int) d.pick<unsigned>({ SIGKILL, SIGTERM, SIGUSR1, SIGHUP }) : (int) d.pick<unsigned>({ 0, 1, 2, 42, 127, 255 });
			d.note("fork ", variant, " plan ", c.plan);
			const int parent = getpid();
			std::function<int ()> f = [&] {
				close(p[1]);
				for (auto & o : cs) if (o.release >= 0) close(o.release);
				const int id = getpid();
				(void) ! write(out[1], &id, sizeof id);
				char x;
				while (read(p[0], &x, 1) > 0) {}
				if (c.plan < 0) { signal(-c.plan, SIG_DFL); kill(getpid(), -c.plan); pause(); }
				return c.plan;
			};
			const int r = variant == 0 ? Fork::performFork(f, true) : variant == 1 ? Fork::performFork(f, false) : Fork::performFork(f);
			if (getpid() != parent) {   // The child: returned, with the state of the function.
				if (variant == 0) _exit(99);
				_exit(r == (variant == 1 ? c.plan : 0) ? c.plan : 98);
			}
			close(p[0]);
			close(out[1]);
			int id = 0;
			const bool ran = read(out[0], &id, sizeof id) == sizeof id;
			close(out[0]);
			c.pid = r;
			c.release = p[1];
			c.code = signalled ? CLD_KILLED : CLD_EXITED;
			c.status = signalled ? -c.plan : c.plan;
			cs.push_back(c);
			CHECK(ran && id == r && r > 0, "performFork returned " << r << ", the function ran in " << id);
			++forks;
			continue;
		}
		const size_t i = d.upto(cs.size() - 1);
		Child & c = cs[i];
		switch (op) {
			case 1: {
				if (c.state != Child::Running) break;
				d.note("let ", i, " end");
				die(c);
				break;
			}
			case 2: {
				d.note("check ", i);
				if (c.state == Child::Reaped) MUST_THROW(Fork::checkForTermination(c.pid), WaitException, "a process that was reaped");
				else report(c, Fork::checkForTermination(c.pid), c.state == Child::Dead);
				break;
			}
			case 3: {
				std::vector<int> pids;
				std::vector<size_t> which;
				for (size_t k = 0; k < cs.size(); ++k) if (cs[k].state != Child::Reaped && d.chance(3, 4)) { pids.push_back(cs[k].pid); which.push_back(k); if (d.chance(1, 6)) pids.push_back(d.boolean() ? 0 : -1); }
				d.note("check several ", pids.size());
				const auto rs = Fork::checkForTermination(pids);
				size_t at = 0;
				for (size_t k : which) if (cs[k].state == Child::Dead) { CHECK(at < rs.size(), "a termination was not reported"); report(cs[k], rs[at++], true); }
				CHECK(at == rs.size(), "more reports than terminations");
				break;
			}
			case 4: {
				d.note("wait ", i);
				if (c.state == Child::Reaped) { MUST_THROW(Fork::waitOnProcess(c.pid), WaitException, "a process that was reaped"); break; }
				if (c.state == Child::Running) { close(c.release); c.release = -1; }
				report(c, Fork::waitOnProcess(c.pid), true);
				break;
			}
			case 5: {
				d.note("terminate ", i);
				if (c.state == Child::Reaped) { MUST_THROW(Fork::terminateProcess(c.pid), WaitException, "a process that was reaped"); break; }
				const bool dead = c.state == Child::Dead;
				report(c, Fork::terminateProcess(c.pid), dead);
				if (!dead) {
					CHECK(awaitDeath(c.pid), "a running process was not terminated");
					c.state = Child::Dead;
					c.code = CLD_KILLED;
					c.status = SIGKILL;
				}
				break;
			}
			default: {
				const int bad = -(int) d.upto(3), absent = -5000000;   // (No such process group exists, should it ever reach kill.)
				d.note("bad pid ", bad);
				for (int k = 0; k < 3; ++k) {
					auto r = k == 0 ? Fork::waitOnProcess(bad) : k == 1 ? Fork::checkForTermination(bad) : Fork::terminateProcess(absent);
					CHECK(r.pid == 0 && r.code == 0 && r.exitStatus == 0, "a report about an invalid process");
				}
				break;
			}
		}
	}
	d.nontrivial(forks > 1 && reports > 0);
}
