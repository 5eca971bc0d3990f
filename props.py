"""What each check's evidence says about its runs."""

REAL = ['all of /repo (sinksmtp.go, rules.go, rparse.go, rlex.go, rnodes.go, conncfg.go, mxresolve.go, rdns.go, tlsnames.go), its main() included, '
        'recompiled from the working tree with its imports of os, net, time, sync, crypto/tls, net/http, expvar and runtime redirected to the simulator']
STUB = ['github.com/siebenmann/smtpd (not available offline): a stand-in that speaks the SMTP server side over the simulated network; TLS handshakes are simulated',
        'kernel: file system (with page cache, power loss, errors), TCP, DNS, clock, process life and death',
        'goroutine scheduling, channels, mutexes and timers: the simulator decides']

RULES = {
    'C01': 'Non-trivial: a message was promised to a client and the daemon or machine crashed in the run.',
    'C02': 'Non-trivial: a storage fault hit while a message was being saved.',
    'C03': 'Non-trivial: a file under a hash name came into being.',
    'C04': 'Non-trivial: two or more records or log lines were compared with their transactions.',
    'C05': 'Non-trivial: the rules refused or stalled something.',
}

RULES.update({
    'C06': 'Non-trivial: the null sender met a rule that refuses or defers it.',
    'C07': 'Non-trivial: a session ran under broken rules.',
    'C08': 'Non-trivial: a rules file was replaced while a session was going on.',
    'C09': 'Non-trivial: a list was edited or a read of it failed, and something was refused in the run.',
    'C10': 'Non-trivial: a client was stalled as a do-nothing client, or had an unproductive transaction counted on RSET.',
    'C11': 'Non-trivial: a connection was not offered TLS because of remembered failures.',
    'C12': 'Non-trivial: log lines of two or more sessions alternate in the log.',
    'C13': 'Non-trivial: a connection was set up with a -conncfg file in force.',
    'C16': 'Non-trivial: a lookup failed for a temporary reason in the run.',
    'C17': 'Non-trivial: sessions overlapped, and all counters were compared with the history at the end.',
    'C15': 'Non-trivial: the configuration is at fault or a system call failed during startup, so that the daemon must refuse to start.',
    'C14': 'Non-trivial: faults, rule edits, slow lookups or hostile clients were present; all runs also have ordinary clients and a late probe.',
})

NOTE = ('Seeded random search, not proof: it covers the schedules, inputs, fault sequences and crash points that the runs reached (counted in the evidence). '
        'Trusted: the simulator (scheduler, file system, network, DNS, clock), the stand-in for the smtpd library, and the reference model written from doc.go.')
NOTES = {}
NA = {}
