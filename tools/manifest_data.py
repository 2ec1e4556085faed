"""technique, level, note per property."""
TRUST = ' Trusted: the reference model in lib/, the compiler, the C library.'
CHECKS = {
 'C01': ('exhaustive enumeration of query x placement product on the real program, reference-model oracle', 'exploration',
         'Every query shape of the stated grid times every placement on both sides of the region border is run through the real main(); nothing is sampled. '
         'Positions enter through the SGP4/SDP4 link seam.' + TRUST),
 'C02': ('bounded exhaustive exploration of catalogue sequences against a list model', 'model_checking',
         'All entry sequences up to the depth bound over a colliding alphabet, all selectors, filters and file splits; every model trace is replayed on the real programs.' + TRUST),
 'C03': ('bounded exhaustive exploration of catalogue histories, file splits and caps against a list model', 'model_checking',
         'All identifier sequences up to the depth bound, all splits over files, all caps; catalogues at every internal capacity step. Every model trace is replayed on the real program.' + TRUST),
 'C08': ('exhaustive enumeration of dates on the real code, civil-calendar oracle', 'exploration',
         'Every day of 1859-9999 times second-of-day classes and every second of selected days, plus the full malformed-date alphabet.' + TRUST),
 'C09': ('exhaustive enumeration of field values and single-character corruptions on the real code', 'exploration',
         'Every value class of every field column by column, every substitution of every column of both lines; independent decoder as oracle.' + TRUST),
 'C10': ('exhaustive enumeration of all 34^5 codes on the real code', 'exploration',
         'The documented order is generated by counting; every code, every leading-blank spelling and every invalid character is decoded by the real parser.' + TRUST),
 'C13': ('exhaustive enumeration of pixels, inner and border directions on the real library, independent integer model', 'exploration',
         'All pixels of small resolutions, structured pixels of every resolution up to 2^29, both interfaces; border directions within ulps.' + TRUST),
 'C14': ('exhaustive enumeration of maps and of every storage fault point of the real FITS code', 'fault_enumeration',
         'Every stdio call of CFITSIO, every allocation, every full-disk position and every truncation length on small maps.' + TRUST),
 'C15': ('exhaustive enumeration of direction grids with degenerate lines on the real routines, long-double vector oracle', 'exploration',
         'Full products of direction, hour angle and latitude grids including degenerate lines and their neighbours.' + TRUST),
 'C16': ('bounded exhaustive exploration of instants and of call histories of the cached quantities, formula oracle', 'model_checking',
         'Every day of 150 years at all boundary times and all short call histories of the nutation cache.' + TRUST),
 'C07': ('explicit-state enumeration of sample histories replayed on the real program', 'model_checking',
         'All histories of the pass state machine up to the depth bound; every model trace is replayed on the real main() and all four events are judged.' + TRUST),
 'C17': ('exhaustive enumeration of instants, sites and satellite positions around the Earth on the real code', 'exploration',
         'Every hour of a century for the solar position; product grids for reported Sun data and for the sunlit decision of both tools.' + TRUST),
 'C18': ('exhaustive enumeration of direction x motion x site x epoch x step product on the real program, reference-model oracle', 'exploration',
         'Every returned field judged against an independent geometry model over full product grids.' + TRUST),
 'C04': ('exhaustive single-fault enumeration on the real programs', 'fault_enumeration',
         'Every open, line read and allocation failing in turn, every truncation length, every file and every element set bad in turn, in every output mode.' + TRUST),
 'C05': ('bounded exhaustive exploration of option sequences and TLE corruptions of the real programs under sanitizers', 'exploration',
         'All option sequences up to depth 3 over an alphabet of every letter and value class; all byte values in all TLE columns; all truncations.' + TRUST),
 'C06': ('exhaustive enumeration of option sets, permutations, spellings and file positions on the real programs', 'exploration',
         'All option sets up to the size bound in every order and spelling; documents must be equal within a set and across the documented precedences.' + TRUST),
 'C19': ('exhaustive enumeration of single and paired download faults and interruption points of the real script', 'fault_enumeration',
         'Every download failing in each way, every kill point, pairs of failing downloads, all initial repositories; final files judged against a list model. '
         'Trusted: the stand-in curl, the shell and coreutils.'),
 'C11': ('exhaustive enumeration of propagation call histories on the real models against a fresh state; all catalogue orders on the real program', 'model_checking',
         'Every history up to the depth bound over a time/interleaving alphabet, for every orbit class and model, plus long chains of steps; real code in every step, oracle is a fresh initialisation.' + TRUST),
 'C12': ('exhaustive enumeration of orbit x time x model product grids on the real models, and of orbits x instants on the real programs, against independently written equations', 'exploration',
         'Full product grids over every orbit class and both sides of every class border, all five models and the state-vector integration, every answer and return code judged; oracle is an independent transcription of the published equations plus model-free relations.' + TRUST),
 'C20': ('exhaustive enumeration of repository contents, run histories and interruption points of the real script', 'fault_enumeration',
         'Every listed file alone and left out, all sharings of catalogue numbers to the bound, all histories of repository states, a kill before every tool call followed by a new run; results judged against a counting model. '
         'Trusted: the shell and coreutils.'),
 'C21': ('exhaustive enumeration of option-value products on the real programs, reference-model oracle for every echoed value', 'exploration',
         'Every document of a full product of sites, epochs, centres, modes and numeric options judged whole against an independent model and against its own content.' + TRUST),
 'C22': ('exhaustive enumeration of dates, download-failure combinations and refresh histories of the real scripts together with the real search program', 'fault_enumeration',
         'Every day of the spacecraft lists, every combination of states of the source files, all short histories of refreshes, every way of naming the directory; files, counts and search results judged against a model of the text. '
         'Trusted: the shell, coreutils and the stand-in curl.'),
}
NA = {}
