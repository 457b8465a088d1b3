/* the SDK header that xmmintrin.h includes */
