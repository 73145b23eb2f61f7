#ifndef NATURE_CONFIG_H
#define NATURE_CONFIG_H
#define BUILD_VERSION "0"
#define BUILD_TIME "0"
#define BUILD_TYPE "analysis"
#endif
