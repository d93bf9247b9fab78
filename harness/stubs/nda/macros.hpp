#pragma once
#include <iostream>
#include <cstdlib>
#define AS_STRING(...) AS_STRING2(__VA_ARGS__)
#define AS_STRING2(...) #__VA_ARGS__
#ifndef FORCEINLINE
#define FORCEINLINE inline
#endif
#define EXPECTS(...) do { if (!(__VA_ARGS__)) { std::cerr << "Precondition " #__VA_ARGS__ " failed\n"; std::abort(); } } while (0)
#define EXPECTS_WITH_MESSAGE(X, ...) EXPECTS(X)
#define ASSERT_NDA_(...) EXPECTS(__VA_ARGS__)
#define ENSURES(X) EXPECTS(X)
#ifndef ASSERT
#define ASSERT(X) EXPECTS(X)
#endif
#define ASSERT_WITH_MESSAGE(X, ...) EXPECTS(X)
