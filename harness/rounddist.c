/* Linked with -Wl,--wrap: distances rounded to tenths, so that pairs exactly at a limit are common. */
#include <math.h>
#include <stdlib.h>
#include <puzzle.h>
extern double __real_puzzle_vector_normalized_distance(PuzzleContext *, const PuzzleCvec *, const PuzzleCvec *, int);
double __wrap_puzzle_vector_normalized_distance(PuzzleContext *c, const PuzzleCvec *a, const PuzzleCvec *b, int f)
{
    return floor(__real_puzzle_vector_normalized_distance(c, a, b, f) * 10 + .5) / 10;
}
