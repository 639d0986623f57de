// Injected into the system calls and locks of the code under test (linked with --wrap):
// short reads and writes, interruptions, small socket buffers, delays, another user id.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <string>
#include <sys/types.h>

namespace faults {
struct Config {
    // probabilities in 1/1024
    std::atomic<unsigned> shortWrite { 0 }, shortRead { 0 }, delay { 0 }, lockDelay { 0 }, interrupt { 0 };
    std::atomic<unsigned> maxWrite { 64 }, maxRead { 16 }, maxDelayUs { 200 };
    std::atomic<int> sndbuf { 0 };
    std::atomic<uint32_t> uid { 0 };
    std::atomic<bool> fakeUid { false };
    // the next call of one of these fails with this error
    std::atomic<int> failEpoll { 0 }, failSocket { 0 }, failConnect { 0 };
};
extern Config cfg;
struct Counts {
    std::atomic<uint64_t> shortWrites { 0 }, shortReads { 0 }, delays { 0 }, lockDelays { 0 }, interrupts { 0 };
};
extern Counts counts;
extern std::atomic<uint64_t> seed;
// threads of the peer are not disturbed
extern thread_local bool exempt;

void off();
// any mixture
void choose(uint64_t random);

// not disturbed
ssize_t rawSend(int fd, const void* p, size_t n, int flags);
ssize_t rawRecv(int fd, void* p, size_t n, int flags);
void pause(unsigned us);
}
