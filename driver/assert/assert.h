// assert() whose operand is visible in the IR, between two marker calls
#undef assert
#ifndef QA_ASSERT
#define QA_ASSERT
constexpr inline void qa_assert_begin() {}
constexpr inline void qa_assert_end(bool, const char*, int) {}
#endif
#define assert(e) (qa_assert_begin(), qa_assert_end(static_cast<bool>(e), __FILE__, __LINE__))
