"""C15: the library keeps no hidden state and has no process-wide effects."""
import effects

# (reviewed) the only process-wide library variables
STATE = {
    'quietMode': ('the quiet-mode switch', {'setQuietModeSetting'}),
    'moduleIDGenerator': ('counter that gives each extension type its identifier', {'gp_AddExtension'}),
    'K23SEARCH_ID': ('identifier of an extension type', {'gp_AttachK23Search'}),
    'K33SEARCH_ID': ('identifier of an extension type', {'gp_AttachK33Search'}),
    'K4SEARCH_ID': ('identifier of an extension type', {'gp_AttachK4Search'}),
    'DRAWPLANAR_ID': ('identifier of an extension type', {'gp_AttachDrawPlanar'}),
    'LogStr': ('scratch text of the debug log', None),
    '_Log.logfile': ('debug log file', {'_Log'}),
}
EXT_OK = set('''malloc calloc realloc free strdup memcpy memset memmove strlen strcmp strncmp strchr strrchr strstr strcspn strspn strcpy strncpy strcat
strncat sprintf snprintf fopen fclose fgetc getc ungetc fgets fputs fputc putc fprintf fread fwrite fseek ftell rewind fflush ferror feof
__isoc99_fscanf __isoc99_sscanf atoi strtol tolower toupper isdigit isspace __ctype_b_loc rand abs labs memcmp memchr strpbrk
__ctype_tolower_loc __ctype_toupper_loc qsort'''.split())


def run(ctx):
    ctx.rule = ('Every writable variable of static storage defined in the library, and every store to one (direct, through a pointer to it, or by a callee given '
                'its address), is enumerated: only the reviewed process-wide variables may be written, and only by their reviewed writers. Every external function '
                'the library calls must be free of process-wide effects (no exit, signal, environment, directory, seeding or clock calls).')
    ctx.assumptions = ['reviewed process-wide variables: ' + ', '.join('%s (%s)' % (k, v[0]) for k, v in STATE.items())]
    m = ctx.mod()
    w = effects.global_writes(m)
    lib = {n for n, g in m.globals.items() if not g['decl'] and '/graphLib/' in (g.get('file') or '') and not n.startswith('.str')}
    for n in sorted(lib):
        g = m.globals[n]
        ctx.count('library_variables')
        for f, I in w.get(n, ()):
            ctx.count('stores_examined')
            if g['const']:
                continue
            ok = STATE.get(n)
            # helper functions introduced around a reviewed writer are inlined, so the writer is named by its public function
            if ok is None:
                ctx.violation('%s:%s' % (n, f.name), 'library function %s keeps state in the process-wide variable %s' % (f.name, n), I.where())
            elif ok[1] is not None and f.name not in ok[1]:
                ctx.violation('%s:%s' % (n, f.name), '%s (%s) is written by %s' % (n, ok[0], f.name), I.where())
    for f in m.defs.values():
        if not effects.is_lib(f):
            continue
        ctx.count('library_functions')
        for I in f.calls():
            n = I.cname()
            if n is None or n in m.defs or n.startswith('llvm.'):
                continue
            ctx.count('external_calls')
            if n not in EXT_OK:
                ctx.violation('%s:%s' % (f.name, n), 'library function %s calls %s, which has a process-wide effect' % (f.name, n), I.where())
    ctx.sample({'library_variables': sorted(lib)})
    ctx.need('library_functions', 200)
    ctx.need('external_calls', 150)
    ctx.need('library_variables', 5)
