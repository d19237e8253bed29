#define BANT_BUILD_VERSION "0"
