// Stands in for the C library's assert.h during analysis: marks where an assertion's condition begins and ends.
// With VERIF_ASSERT_OFF assertions are absent in every configuration, so that builds with and without NDEBUG may be compared.
#undef assert
#ifdef __cplusplus
extern "C" void verif_assert_begin(const char *, int) noexcept; extern "C" void verif_assert_end() noexcept;
#define VERIF_ASSERT_BOOL bool
#else
void verif_assert_begin(const char *, int) __attribute__((nothrow)); void verif_assert_end(void) __attribute__((nothrow));
#define VERIF_ASSERT_BOOL _Bool
#endif
#ifdef VERIF_ASSERT_OFF
#define assert(...) ((void)0)
#else
#define assert(...) __extension__({ verif_assert_begin(__FILE__, __LINE__); (void)(VERIF_ASSERT_BOOL)(__VA_ARGS__); verif_assert_end(); })
#endif
#if !defined(__cplusplus) && !defined(static_assert)
#define static_assert _Static_assert
#endif
