// Simulated kernel: files with advisory locks, shared memory objects, local datagram sockets, users and groups.
// All state lives in the snapshot, so executions are independent of each other and of the real system.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace os
{
void on() noexcept;                // from now on the calls of the code under test go to the simulated kernel
void off() noexcept;
void process(int p) noexcept;      // whom the descriptors opened by the calling fiber belong to
void processOf(int fid, int p) noexcept;
void points(bool) noexcept;        // every simulated call is a scheduling point
void faults(bool) noexcept;        // every simulated call may fail (mc::choose_fault)
void faultsOf(int p) noexcept;      // every simulated call of process p may fail (-1: of nobody)
void mortal(int p) noexcept;       // process p may die at any of its simulated calls (costs one fault; -1: nobody)
void user(int p, unsigned uid) noexcept;
void group(int p, unsigned gid) noexcept; // the primary group (that of the user otherwise)
void die(int p) noexcept;          // the kernel closes what the process had open; nothing is unlinked
void end(int p) noexcept;          // the process dies, all its threads stop (returns if the calling fiber belongs to another one)
void born(int p) noexcept;         // the process lives: kill() finds it
int pidOf(int p) noexcept;
uint64_t signals(int p) noexcept;  // bit set of signals it was sent since it was born
int wildKills() noexcept;          // signals sent to process groups
int openFds(int p) noexcept;       // number of descriptors of a process (-1: of all)
int mappings(int p) noexcept;
int writable(int p) noexcept;      // those that may be written
bool exists(const char* path) noexcept;
int files() noexcept;              // number of linked files, shared memory objects and sockets
std::string listing();             // for messages
const char* lastFault() noexcept;  // name of the call that failed last because of an injected fault
int faultCount() noexcept;
unsigned umaskOf(int p) noexcept;
int badCloses() noexcept;          // close of a descriptor which is not open
int queued(const char* path) noexcept; // messages waiting in the socket bound to path
// inject a datagram into the socket bound to path
bool inject(const char* path, const void* p, size_t n) noexcept;
unsigned modeOf(const char* path) noexcept;
uint64_t sizeOf(const char* path) noexcept;
} // namespace os
