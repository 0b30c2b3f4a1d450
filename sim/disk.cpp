#include "disk.h"
namespace sim {
void diskInit() {}
void diskStart() {}
void diskEnd() {}
}
