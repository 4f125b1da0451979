"""Per property: number of simulated runs per tier, and what the evidence says."""
BASE = ['x86-64 Linux, g++; the library is built with AddressSanitizer and libstdc++ assertions',
        'files are accessed through the libstdc++ file streams; the simulated file system stands in for the kernel',
        'a seek on an open regular file does not fail (it has no failure mode there), so lseek is never made to fail']
MEM = 'memory does not run out while a trace is being moved (moving allocates a small block and is declared not to throw) or inside a destructor'
IO = 'short transfers and interrupted system calls are drawn at every I/O step'


def p(quick, rule, *more, mult=20, cold=16):
    # cold: every so manieth run is made in a process that has not used the library before
    return dict(quick=quick, thorough=quick * mult, rule=rule, assumptions=BASE + list(more), cold=cold)


PLAN = {
    'C01': p(120000, 'a generated SEG-Y file is read with a drawn sequence of calls while ' + IO + ', and every returned value is compared with the reference model that made the file.'),
    'C02': p(80000, 'a drawn sequence of writer calls while ' + IO + '; the resulting file is compared byte by byte with the reference encoding.'),
    'C03': p(50000, 'a generated file is read and written again (same or another revision, format and byte order) while ' + IO + '; the copy is compared with the original.'),
    'C04': p(50000, 'a generated SEG-D file of one to three records (revisions 0 to 3, all formats, drawn shapes and extension maps, sometimes with a trailer of up to 128 GB as a hole) is read with a drawn sequence of calls while ' + IO + '; every accessor and every trace is compared with the reference model that made the file.',
             'traces before revision 3 carry their number of samples in a header extension; channel sets are numbered by position; revision 3 channel sets have no descale multiplier'),
    'C05': p(20000, 'a drawn SEG-D record is written trace by trace, or copied record by record from a generated file, while ' + IO + '; the file is compared with the reference encoding, headers byte by byte, samples by value.',
             'samples lie in the range of the format'),
    'C06': p(40000, 'a generated file is opened through the sorted reader and read with a drawn sequence of calls while ' + IO + '; the order and the traces are compared with a stable sort of the reference.',
             'sort keys are numbers (no NaN)'),
    'C07': p(50000, 'a generated file is read with a drawn sequence of calls while read errors, failed opens, failed allocations, short reads and interrupts are drawn; failed calls are retried; everything returned must be true.',
             MEM),
    'C08': p(40000, 'a drawn sequence of writer calls while write errors, full disks, failed allocations, torn and short writes are drawn; acknowledged data and the read-back prefix are compared with the reference.',
             MEM),
    'C09': p(25000, 'a drawn sequence of writer calls is stopped at a drawn system call, with the last write torn at a drawn byte; the surviving file is opened again and must be a prefix of what was written.',
             'the process crashes, the machine does not: completed writes survive in order'),
    'C10': p(20000, 'several clients with objects of their own run as tasks under a seeded scheduler that may switch at every basic block of the library and at every I/O step; each must observe what it observes alone.', cold=3),
    'C11': p(240000, 'a generated file is damaged in drawn places (or replaced by noise) and read with a drawn sequence of calls; memory errors, foreign exceptions, unbounded work and wrong undamaged traces are violations.'),
    'C12': p(80000, 'a drawn sequence of writer calls, some of which must be refused; refusals must be reported and leave no trace in the file.'),
    'C13': p(60000, 'drawn copies, moves, assignments and changes of traces and headers, interleaved between tasks and with failing allocations, against a value model.',
             MEM),
    'C14': p(30000, 'a class derived from OSEGD writes a drawn revision 3 record from the building blocks, its traces drawn or copied from a generated file, while ' + IO + '; the file is compared with the reference encoding and read back.',
             'samples lie in the range of the format; no descaling'),
}
