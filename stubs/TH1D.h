#include <ROOTStubs.h>
