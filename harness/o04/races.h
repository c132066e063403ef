// Records what the chunks of parallel loops access.
#pragma once
#include <string>
namespace races {
void start();                   ///< a new execution
std::string found();            ///< first race of the execution, empty if none
void enter(void *frame);        ///< a parallel loop begins; objects on the stack below `frame` are private to the chunks
void chunk(int id);             ///< chunk `id` (from 1, 0: none) of the innermost loop begins
void leave();
void pause();                   ///< what follows is not part of the chunk
void resume();
struct Pause {
  Pause() { pause(); }
  ~Pause() { resume(); }
};
extern long accesses;
} // namespace races
