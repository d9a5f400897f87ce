// C30: the runs of C08_adaptors.cpp
//@ run chain1 cflags="-DH_K=1" bounds="then | upon_error | upon_stopped over one child: any channel, value, inline or deferred, any of the functions throwing"
//@ run chain2 cflags="-DH_K=2" bounds="upon_stopped | then | upon_error"
//@ run chain3 cflags="-DH_K=3" bounds="upon_error (twice, second takes the exception) | then | then, void results"
//@ run conv1 cflags="-DH_K=4" bounds="into_variant (two value signatures), stopped_as_optional, stopped_as_error"
//@ run conv2 cflags="-DH_K=5" bounds="materialize, dematerialize, into_tuple, into_tuple of tracked value"
//@ run vsnd cflags="-DH_K=6" bounds="variant_sender: all histories of 3 assignments/emplacements/swaps of two alternatives before connect; copies"
//@ run just cflags="-DH_K=7" bounds="just, just_error, just_stopped, just_from family, any values"
//@ run env cflags="-DH_K=8" bounds="read_env, write_env (nested, shadowing), unless_stop_requested, unstoppable; stop requested or not"
//@ run throwing cflags="-DH_K=9" bounds="copies and moves of the datums throw at any point: then, into_variant, stopped_as_optional, into_tuple, just"
//@ run moveonly cflags="-DH_K=10" bounds="move-only values pass through every adaptor unchanged"
//@ run noexc cflags="-DH_K=11" bounds="noexcept functions whose parameters or results are created by throwing moves: then, upon_error, upon_stopped, let_*, over a child with a throwing value or error"
//@ run connect cflags="-DH_K=12" bounds="every elementary adaptor over a child whose connect throws, or is noexcept: the exception leaves connect"
#define RACES_ONLY
#define SIGS
#include "C08_adaptors.cpp"
