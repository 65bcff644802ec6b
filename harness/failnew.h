#ifndef FAILNEW_H
#define FAILNEW_H
namespace failnew {
	extern bool armed, persistent;   // persistent: every later request fails as well
	extern long left, made, live;    // requests until the failure (0: none), made while armed, blocks in use
	extern unsigned failures;
	struct Arm {
		Arm(long n, bool p) { left = n; persistent = p; made = 0; failures = 0; armed = true; }
		~Arm() { armed = false; left = 0; }
	};
}
#endif
