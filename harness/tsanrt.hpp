#ifndef VERIF_TSANRT_HPP
#define VERIF_TSANRT_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace rt {
struct conflict { std::uintptr_t at; bool heap; };
struct result { std::size_t accesses, shared; bool complete; std::vector<conflict> conflicts; std::vector<std::string> files; };
void init();            // once per process, before the threads
void start(int thread); // the calling thread is recorded as thread 0 or 1 from now on
void stop();
result compare();       // the memory both threads used
std::string where(std::uintptr_t);
}
#endif
