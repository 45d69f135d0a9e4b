// helpers for demonstrations
#pragma once
#include "vworld.hpp"
#define FAILED(...) do { printf("DEMO failed: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define EXPECT(c, ...) do { if (!(c)) FAILED(__VA_ARGS__); } while (0)
#include <unistd.h>
