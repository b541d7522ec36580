#include "test_util.hpp"

UTEST_MAIN()