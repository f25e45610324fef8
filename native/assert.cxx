// Turns failed libstdc++ assertions into crashes that the sanitizer reports where the monitors look for reports.
#include <cstdio>
namespace std
{
void __glibcxx_assert_fail(const char *file, int line, const char *function, const char *condition) noexcept
{
	std::fprintf(stderr, "%s:%d: %s: Assertion '%s' failed\n", file, line, function, condition);
	__builtin_trap();
}
}
