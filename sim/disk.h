#pragma once
namespace sim {
void diskInit();
void diskStart();
void diskEnd();
}
