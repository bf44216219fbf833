// assertions of the code under test throw instead of ending the process
#undef assert
namespace mini { [[noreturn]] void unreachable(const char *msg, const char *file, int line); }
#define assert(...) ((__VA_ARGS__) ? (void)0 : ::mini::unreachable(#__VA_ARGS__, __FILE__, __LINE__))
