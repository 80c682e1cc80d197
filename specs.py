# One entry per property: the harness jobs that decide it.
def job(*h, **k):
    d = dict(harness=list(h)); d.update(k); return d
TECH = 'stateless explicit enumeration of all bounded executions of the real code against a reference model'
NOTE = ('Exhaustive within the stated bounds: every choice vector is executed on the real code under AddressSanitizer and compared step by step '
        'with an independent reference model. Trusts the reference model, the enumeration engine and the compiler.')
NA = {}
SPECS = {
 'C01': dict(jobs=[job('C01_table.c', name='histories'), job('C01_bighint.c', name='size hints'), job('C01_scale.c', name='sizes and key pairs')]),
 'C02': dict(jobs=[job('C02_set.c', name='algebra and histories'), job('C02_scale.c', name='sizes'), job('C02_match.c', name='user-defined equality')]),
}
SPECS['C03'] = dict(jobs=[job('C03_tree.c', name='reachable trees'), job('C03_scale.c', name='big trees')],
  note='Complete state-space exploration: every insertion position and removal is executed by the real code on every reachable red-black tree up to the size bound, so histories of every length are covered; the decision does not depend on key values because the code only compares them.')
SPECS['C04'] = dict(jobs=[job('C04_list.c', name='all arrangements'), job('C04_scale.c', name='long lists')])
SPECS['C05'] = dict(jobs=[job('C05_llist.c', name='all short lists'), job('C05_scale.c', name='long lists')])
SPECS['C06'] = dict(jobs=[job('C06_array.c', name='histories'), job('C06_scale.c', name='sizes')])
SPECS['C07'] = dict(jobs=[job('C07_bstream.c', name='histories'), job('C07_scale.c', name='sizes')])
SPECS['C08'] = dict(jobs=[job('C08_buf.c', name='histories'), job('C08_scale.c', name='sizes')])
SPECS['C09'] = dict(jobs=[job('C09_ptrarray.c', name='histories'), job('C09_scale.c', name='sizes')])
SPECS['C10'] = dict(jobs=[job('C10_pool.c', name='histories', wrap=['malloc', 'free']), job('C10_scale.c', name='sizes', wrap=['malloc', 'free'])])
SPECS['C48'] = dict(jobs=[job('C48_diag.c', name='displays after all short histories')])
SPECS['C11'] = dict(jobs=[job('C11_group.c', name='groups and heaps', wrap=['malloc']), job('C11_scale.c', name='sizes')])
SPECS['C12'] = dict(jobs=[job('C12_ezpool.c', name='histories'), job('C12_scale.c', name='sizes')])
SPECS['C15'] = dict(jobs=[job('C15_encode.c', name='all short byte strings'), job('C15_scale.c', name='long byte strings')])
SPECS['C16'] = dict(jobs=[job('C16_decode.c', name='all short texts'), job('C15_scale.c', name='long texts, line breaks and damage')])
SPECS['C17'] = dict(jobs=[job('C17_slices.c', name='all short strings and positions'), job('cstr_scale.c', name='long strings, many pieces and copies', cflags=['-DPART=17'])])
SPECS['C18'] = dict(jobs=[job('C18_search.c', name='all short strings, slices and patterns'), job('cstr_scale.c', name='long strings, patterns and sets', cflags=['-DPART=18'])])
SPECS['C19'] = dict(jobs=[job('C19_trim.c', name='all short strings'), job('cstr_scale.c', name='long strings', cflags=['-DPART=19'])])
SPECS['C20'] = dict(jobs=[job('C20_split.c', name='all short strings'), job('cstr_scale.c', name='many and long pieces', cflags=['-DPART=20'])])
SPECS['C21'] = dict(jobs=[job('C21_text.c', name='numbers and hex text'), job('cstr_scale.c', name='long data and offsets', cflags=['-DPART=21'])])
SPECS['C22'] = dict(jobs=[job('C22_paths.c', name='all short paths'), job('cstr_scale.c', name='long and deep paths', cflags=['-DPART=22'])])
SPECS['C39'] = dict(jobs=[job('C39_time.c', name='all boundary pairs', wrap=['getrusage'])])
SPECS['C42'] = dict(jobs=[job('C42_hash.c', name='all short byte strings'), job('C42_scale.c', name='long byte strings'), job('C42_scale.c', name='beyond 4 GiB', san='none', opt='-O2', cflags=['-DHUGE_ONLY'], args=['hang=480', 'mem=9000'])])
SPECS['C43'] = dict(jobs=[job('C43_hexdump.c', name='all lengths and byte values'), job('C43_scale.c', name='many rows'), job('C43_scale.c', name='beyond 4 GiB', san='none', opt='-O2', cflags=['-DHUGE_ONLY'], args=['hang=480', 'mem=9000'])])
SPECS['C25'] = dict(jobs=[job('C25_int.c', name='all operand pairs', ndebug=False, wrap=['abort', '_zt_log_assertion'])])
SPECS['C23'] = dict(jobs=[job('C23_printf.c', name='all format specifications'), job('fmt_scale.c', name='wide fields, long strings, many conversions', cflags=['-DPART=23'])])
SPECS['C24'] = dict(jobs=[job('C24_sinks.c', name='all sinks'), job('fmt_scale.c', name='long texts through every sink', cflags=['-DPART=24'])])
SPECS['C26'] = dict(jobs=[job('C26_ipv4.c', name='texts and networks'), job('C26_scale.c', name='tables of many networks, long texts')])
SPECS['C13'] = dict(jobs=[job('C13_gc.c', name='mutator histories and increments'), job('C13_scale.c', name='big graphs')])
SPECS['C14'] = dict(jobs=[job('C13_gc.c', name='mutator histories, completeness', cflags=['-DLIVE']), job('C13_scale.c', name='big graphs, completeness', cflags=['-DLIVE'])])
SPECS['C27'] = dict(jobs=[job('C27_cfg.c', name='all short files', wrap=['fopen']), job('cfg_scale.c', name='large files, long names and values, reference chains', cflags=['-DPART=27'], wrap=['fopen'])])
SPECS['C28'] = dict(jobs=[job('C28_cfgset.c', name='assignment histories', wrap=['fopen']), job('cfg_scale.c', name='long histories, chains and cycles', cflags=['-DPART=28'], wrap=['fopen'])])
SPECS['C29'] = dict(jobs=[job('C29_opts.c', name='all short argument vectors', wrap=['exit']), job('C29_scale.c', name='large tables, long words, many words')])
SPECS['C47'] = dict(jobs=[job('C47_daemon.c', name='daemons, with every failing call', wrap=['fork', 'setsid', 'getrlimit', 'chdir', 'close', 'sleep'])])
W46 = ['abort', 'malloc', 'calloc', 'realloc', 'strdup', 'reallocarray', 'select', 'nanosleep', 'clock_nanosleep', 'usleep', 'poll']
SPECS['C46'] = dict(jobs=[job('C46_base.c', name='assertions off', wrap=W46), job('C46_base.c', name='assertions on', wrap=W46, ndebug=False)])
SPECS['C52'] = dict(jobs=[job('C52_repl.c', name='replacements under other names', cflags=['-I{REPO}/src/libzt'])])
SPECS['C30'] = dict(jobs=[job('C30_uuid.c', name='values, texts and buffers'), job('C30_uuid.c', name='values, texts and buffers, assertions on', ndebug=False)])
SPECS['C32'] = dict(jobs=[job('C32_sha1.c', name='all lengths and chunkings'), job('C32_sha1.c', name='lengths beyond 32 bits', opt='-O2', cflags=['-DHUGE_ONLY'], args=['hang=480', 'mem=9000'])])
SPECS['C33'] = dict(jobs=[job('C33_random.c', name='seeds and histories', wrap=['time'])])
W35 = ['time', 'gethostname', 'getpid', 'fopen', 'openlog', 'closelog', 'vsyslog']
SPECS['C35'] = dict(jobs=[job('C35_log.c', name='all lines', wrap=W35), job('C35_scale.c', name='lengths, names, many loggers, macros', wrap=W35, cflags=['-DDEBUG'], ndebug=False)])
SPECS['C37'] = dict(jobs=[job('C37_pid.c', name='fault sequences', wrap=['creat', 'open', 'write', 'close', 'getpid'])])
SPECS['C38'] = dict(jobs=[job('C38_mkdir.c', name='trees, paths, failures and races', wrap=['mkdir', 'stat', 'lstat']), job('C38_scale.c', name='long paths and modes')])
SPECS['C44'] = dict(jobs=[job('C44_prog.c', name='names, PATH lists and base directories'), job('C44_scale.c', name='long names, long PATH lists, deep trees')])
SPECS['C40'] = dict(jobs=[job('C40_unit.c', name='all arrangements and selections'), job('C40_scale.c', name='many tests, long names, repeated runs'), job('C40_api.c', name='registering, releasing and running'), job('C40_cpp.cpp', name='C++ tests and exceptions', libcxx=['zt_unit_cpp.cpp'])])
SCHED = 'calloc flockfile free funlockfile malloc nanosleep pthread_cancel pthread_cond_broadcast pthread_cond_destroy pthread_cond_init pthread_cond_signal pthread_cond_timedwait pthread_cond_wait pthread_create pthread_detach pthread_exit pthread_join pthread_key_create pthread_mutex_destroy pthread_mutex_init pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_destroy pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_unlock pthread_rwlock_wrlock pthread_spin_destroy pthread_spin_init pthread_spin_lock pthread_spin_unlock realloc sched_yield sem_destroy sem_init sem_post sem_wait strdup usleep'.split()
LIBC = '__xpg_strerror_r asctime bzero ctime dprintf fclose fdopen fflush fopen fprintf fputc fputs fwrite gmtime gmtime_r localtime localtime_r memcmp memcpy memmove memset printf putc putchar puts snprintf sprintf stpcpy strcat strchr strcmp strcpy strerror strerror_r strftime strlen strncat strncmp strncpy strrchr strtok vdprintf vfprintf vprintf vsnprintf vsprintf write'.split()
def tjob(*h, **k):
    "threads under the controlled scheduler, memory accesses of libzt reported to the race detector"
    k['wrap'] = SCHED + k.get('wrap', [])
    return job(*h, mc=['ctl.c', 'lc.c'], redef=LIBC, san='none', lib_cflags=['-fsanitize=thread'], **k)
STECH = 'stateless exploration of all thread interleavings of the real code up to a preemption bound under a controlled scheduler, with vector-clock race detection'
SPECS['C34'] = dict(technique=STECH, jobs=[tjob('C34_pool.c', name='schedules', wrap=['pipe'])])
SPECS['C45'] = dict(technique=STECH, jobs=[tjob('C45_threads.c', name='schedules', wrap=['time', 'gettimeofday', 'clock_gettime'])])
SPECS['C31'] = dict(technique=STECH + '; exhaustive enumeration of short names against an independent SHA-1', jobs=[
  tjob('C31_newuuid.c', name='random uuids under every schedule', wrap=['time', 'gettimeofday', 'clock_gettime', 'clock']),
  job('C31_newuuid.c', name='name-based uuids', cflags=['-DNAMES']),
  job('C31_fork.c', name='random uuids across processes', wrap=['time', 'getpid'])])
SPECS['C36'] = dict(technique=STECH, jobs=[tjob('C36_conclog.c', name='schedules', wrap=['time', 'gettimeofday', 'clock_gettime', 'atexit', 'fopen', 'gethostname', 'getpid', 'openlog', 'closelog', 'vsyslog'])])
SPECS['C41'] = dict(technique=TECH + '; ' + STECH, jobs=[job('C41_atexit.c', name='all handler sequences'), tjob('C41_threads.c', name='registration by several threads', wrap=['atexit'])])
SPECS['C49'] = dict(technique=STECH, jobs=[tjob('C49_separate.c', name='every pair of parts')])
W50 = ['malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'vasprintf', 'asprintf', 'fopen', 'vsyslog', 'abort', 'exit', 'pthread_mutex_lock', 'pthread_create', 'pthread_join', 'pthread_exit']
SPECS['C50'] = dict(technique='exhaustive fault injection: every set of refused memory requests up to a bound, over scripts using every allocating part of the real code', jobs=[job('C50_nomem.c', name='every refused request', redef=W50), job('C50_nomem.c', name='every refused request, assertions on', redef=W50, ndebug=False, args=['refusals=1'])])
SPECS['C51'] = dict(technique='stateless exploration of the real code: every script of library use nested in every call of every callback', jobs=[job('C51_nested.c', name='every use in every callback')])
