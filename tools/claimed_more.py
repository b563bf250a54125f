CLAIMED.update({
 'I01': (MODEL, 'exploration', 'histories of up to 40 steps, and bulk ones of thousands of words, against a word-to-tag-sets map; order independence by running a history reordered'),
 'I02': (MODEL, 'exploration', 'the whole tree compared with the model by every route, after a history and after every step of short ones'),
 'I03': (MODEL, 'exploration', 'save and reload at any point, into new and used targets, then the same extension on original, copy and model'),
 'I04': (MODEL, 'exploration', 'optimise at any point, then compare, extend, save; unused collections counted in the written form by an independent parser'),
 'I05': (PBT, 'exploration', 'independent encoder and strict parser of the layout; every count at its edges'),
 'I06': (FAULT, 'fault_enumeration', 'every cut and fault offset of small generated files, sampled offsets of large ones'),
 'I07': (MODEL, 'exploration', 'histories on registries of all fill levels, the full ones included'),
 'I08': (PBT + '; race detector', 'exploration', 'generated lookups by 2 to 8 goroutines under the race detector, written form compared before and after'),
 'I10': (PBT, 'exploration', 'files with 1 to 4 changed numbers, bytes, bits or pieces, every byte of two small files set to 11 values, random bytes; an independent reader tells which must be refused; memory measured'),
 'I09': (PBT, 'exploration', 'codecs against an independent layout, every size 0..520 and group edges, every cut and fault offset'),
})
CLAIMED.update({
 'O01': (PBT, 'exploration', 'generated dictionaries in generated XML spellings against an independent word-to-tag-sets map; large dictionaries sampled'),
 'O02': (FAULT, 'fault_enumeration', 'every truncation of small dictionaries, every kind of damage at generated places, with and without a previous index'),
 'O03': (FAULT, 'fault_enumeration', 'archives packed by bzip2; every cut and sampled damaged bits; disk full through a file size limit'),
 'O04': (PBT, 'exploration', 'local states times scripted server answers on the loopback interface'),
 'O05': (MODEL, 'fault_enumeration', 'histories of updates against a scripted server with failures at every step, every system call on its files failing included, followed by a run without failures'),
 'O06': (FAULT, 'fault_enumeration', 'every byte at which the disk fills up for small indexes, obstructed destinations'),
 'O07': (MODEL, 'exploration', 'histories of operations on several loaders, whole-tree comparison after each; run as root'),
 'O09': (FAULT, 'fault_enumeration', 'histories whose last update is killed by a tracer before or in the middle of each of its system calls on files, followed by two updates; loss of power not covered'),
 'O08': (PBT, 'exploration', 'generated lists, forms, grammemes, attributes'),
 'C01': (MODEL, 'exploration', 'sessions of generated lines through a pipe to the built console; answers compared with an independent reading of the index file; terminal control characters not covered'),
 'C02': (MODEL, 'fault_enumeration', 'histories of runs of the built command against a scripted server, all spellings of the flags'),
})
CLAIMED.update({
 'S07': (MODEL + '; race detector', 'exploration', '2 to 5 of the histories of S03 to S05 alternating at every step, read and write, and at the same time under the race detector'),
 'D06': (MODEL + '; race detector', 'exploration', '2 to 5 of the histories of D01 alternating at every step, read and write, made from one list too, and at the same time under the race detector'),
 'I11': (MODEL + '; race detector', 'exploration', '2 to 4 histories alternating at every step, read and write, and at the same time under the race detector; what an index lends and documents as its own is left alone'),
 'O10': (MODEL + '; race detector', 'exploration', '2 to 4 directories with up to 3 small dictionaries each, alternating after every operation and at the same time; downloading not included'),
})
