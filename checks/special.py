"""The checks that do not run the C++ monitor."""
from cli import cli_check, c_sample, c_output, c_context, c_histogram, c_program, c_graph

import bind
CHECKS = {
 'C20': cli_check('C20', c_sample, 4000, 100000, 400, 6000, 1000,
   'a case runs the sample command for 1-3 random patterns (also fixed, case-insensitive, several encodings, determinization depths, sample and loop limits); every printed sample has to match one of the patterns as judged by an own matcher; non-trivial: samples printed, distinct by samples'),
 'C21': cli_check('C21', c_output, 3000, 80000, 250, 2000, 500,
   'a case runs a search with patterns from -p, key files (with encoding and option columns) or the first argument, and inputs that are files, directories, recursive trees, lists of inputs and standard input, at random block sizes or memory-mapped, with random output options in random forms and places; output compared line by line with the hits the library reports for each input; non-trivial: hits expected'),
 'C22': cli_check('C22', c_context, 4000, 100000, 300, 2000, 500,
   'a case searches 1-2 files with -A, -B, -C (0 to 2^31-1 lines), separators and optionally a histogram; the offset and text of every context compared with an own computation of line boundaries; non-trivial: hits expected'),
 'C23': cli_check('C23', c_histogram, 3000, 60000, 200, 2000, 400,
   'a case searches several inputs at random block sizes (from 1 byte) or memory-mapped with a histogram file, which is compared with the count of each hit text of each pattern over all hits the library reports; non-trivial: hits expected'),
 'C24': cli_check('C24', c_program, 1500, 30000, 150, 700, 200,
   'a case validates, compiles to a program file and searches with the same patterns, a third of them faulty; errors are compared line by line with those of the library, output with a direct search, truncated program files must be refused; non-trivial: hits or errors expected'),
 'C28': cli_check('C28', c_graph, 8000, 200000, 400, 3000, 800,
   'a case draws the graph of 1-15 patterns from any source, with random encodings and determinization depths, reads it back as an automaton with ordered edges and runs that over 2 texts, half of them random walks through it; its hits are compared with those of a search; non-trivial: hits expected; distinct by patterns and text'),
 'C25': bind.python,
 'C26': bind.java,
}
