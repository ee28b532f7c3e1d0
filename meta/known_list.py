FIXED += [
 ('G02', '4685348', 'generators/smwc48.c', 'signed overflow: uint16_t * uint16_t in int'),
 ('G02', '69e5ecc', 'generators/smwc48lux.c', 'signed overflow: uint16_t * uint16_t in int'),
]
FIXED += [
 ('C01', '72f8f56', 'src/coretests.c', 'bspace: shift by the full word width in 1D tests'),
 ('C02', '7ec65ea', 'src/coretests.c', 'gap test: an output that never hits the gap got no penalty'),
 ('C01', '0b1de27', 'src/coretests.c', 'nbit_words_freq: unchecked allocations, uninitialised result'),
 ('C02', '69db74b', 'src/coretests.c', 'monobit_freq: uninitialised result'),
 ('C03', 'c97f5cd', 'src/lineardep.c', 'matrixrank: unchecked allocations, leak for unsupported word sizes'),
 ('C01', 'c5ef579', 'src/lineardep.c', 'berlekamp_massey: buffer overflow when only the last bit is set'),
 ('C02', 'c2b1626', 'src/coretests.c', 'collisionover: uninitialised result'),
 ('C01', '2f00cda', 'src/hwtests.c', 'hamming_distr: unchecked allocations'),
 ('C01', '3b25154', 'src/extratests.c', 'ising2d: conversion of 2^64 to uint64_t'),
 ('C13', 'fb4ecd7', 'src/bat_special.c', 'blockfreq battery: unchecked allocations'),
 ('C06', 'fb11875', 'src/bat_special.c', 'birthday battery: out of memory was reported as PASSED'),
 ('C10', '7c908d3', 'src/threads_intf.c', 'threads registry: race between registration and ThreadObj_current'),
 ('C13', 'd17cd2a', 'src/core.c', 'tests dispatcher, enveloped generators: unchecked allocations'),
 ('C13', 'c4942a4', 'src/core.c', 'stdout modes: a generator that cannot be created was used'),
]
FIXED += [
 ('C13', '78fe5ca', 'src/base64.c', 'base64: unchecked allocations'),
 ('C13', '664a7f4', 'src/entropy.c', 'entropy: unchecked allocations'),
 ('C13', '0ce8072', 'src/fileio.c', 'stdin generator: unchecked allocation'),
 ('C13', 'a3aff7b', 'src/bat_file.c', 'custom battery: unchecked allocations'),
 ('C08', '85b5dc2', 'src/bat_file.c', 'custom battery: stack buffer overflow for a parameter name of 64 or more characters'),
 ('C08', 'cbe2f07', 'src/bat_file.c', "custom battery: null pointer dereference if 'test' or 'bitpos' is absent"),
 ('C08', 'a663b95', 'src/bat_file.c', 'custom battery: collisionover/gap options with invalid shifts were accepted'),
 ('C13', '6510c16', 'src/coretests.c', 'mod3_test: out of memory ended the program with a success status'),
 ('C08', 'b8cc210', 'src/bat_file.c', 'custom battery: linearcomp bit position 64 was accepted (shift by 64)'),
 ('C09', '3ea14d1', 'apps/smokerand.c', '--maxlen_log2: the limits 12..63 were not checked (1 << 64 and more)'),
 ('C06', 'a85dc7f', 'apps/smokerand.c', 'stdout modes: exit code 3 for a successful run'),
 ('C15', '20ae145', 'apps/smokerand.c', 'stdout modes with stdin generators: a text report was added to the binary output'),
 ('C15', '0038b9f', 'src/core.c', 'stdout mode: output errors were ignored'),
 ('C11', '49ef3e9', 'apps/smokerand.c', 'more than 255 threads: the printed seed could not be used'),
 ('C07', '3920662', 'apps/smokerand.c', '--filter was silently ignored for stdin32 and stdin64'),
 ('C13', '3f19e6f', 'src/bat_file.c', "custom battery: memory leak in the 'battery' entry"),
 ('C11', '4a5d922', 'apps/smokerand.c', '--threads on a machine with more than 256 cores: the printed seed could not be used'),
]
