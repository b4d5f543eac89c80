#pragma once
#include <cstddef>
#include <string>
#include <unistd.h>
// Happens-before tracking, does something only in FLAVOUR=race (see race.cpp)
namespace race
{
extern bool on;
void acquire(const void* syncObject);
void release(const void* syncObject);
void threadStart(int parent, int child);
void threadJoin(int child);
void sharedBuffer(const void* pc);
void blockNew(void* p, size_t n);
bool blockFree(void* raw, void* p, size_t n, const void* pc); // true: the block is kept in quarantine
} // namespace race
