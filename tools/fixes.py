"""Which property each fix: commit in /repo belongs to, and the findings recorded without a repair."""
KNOWN = [
 {"id": "library-universes", "property": "C35", "status": "known", "match": {"case": "IPs with a fingerprint written in Funge end"},
  "what": "an IP that has loaded a fingerprint written in Funge (program `z#@t` with -lROMA) leaves that fingerprint's universe and its thread behind when it ends"},
]
PROP = {
 "the program's end does not destroy a universe that another IP is still using": "C13",
 "IIPC uses another IP's stack only between its instructions and only while it lives": "C27",
 "MODE and NFUN do not change what other threads are using": "C13",
 "q ends the program although another thread waits for input": "C13",
 "output appears before that of the commands run after it": "C34",
 "threads that read at once leave the terminal as it was": "C33",
 "random choices differ between runs and between IPs": "C32",
 "*><> files receive the low byte of large values": "C24",
 "end of command input ends the debugger": "C25",
 "quit in the debugger executes nothing more": "C25",
 "the debugger prints the IPs and stacks it lists": "C25",
 "reading an unfinished vector ends": "C25",
 "the debugger forgets IPs that have ended or left": "C25",
 "the debugger prints any plane of fungespace and ends": "C25",
 "DBUG acts on the debugger of the universe the IP is in": "C25",
 "MVRS: a transferred IP reads and writes the fungespace it is in": "C26",
 "MVRS: an IP is handed over after its tick and the process waits for it": "C26",
 "MVRS: B rejects dimensions and flags it cannot use": "C26",
 "REFC: the references are shared by all threads": "C13",
 "native threads: the universe ends with its last IP": "C13",
 "native threads: IP ids, lists and ends are synchronised": "C13",
 "native threads: fungespace is synchronised": "C13",
 "native threads: the clock is read without shared state": "C13",
 "an empty multiverse ends successfully": "C29",
 "MODU U of a multiple is zero": "C19",
 "created universes keep the capabilities of their creator": "C14",
 ". prints the whole 64-bit cell": "C11",
 "' and s transfer the whole 64-bit cell": "C04",
 "k reads the whole count and instruction cells, and 0k skips the instruction it found": "C06",
 "j uses the whole 64-bit distance": "C02",
 "y uses the whole 64-bit argument": "C10",
 "an instruction that fails under k reflects the IP": "C30",
 "& accepts a number that ends at end of input": "C11",
 "new stacks obey the stack mode in force": "C21",
 "keep every non-space cell inside the reported bounds": "C05",
 "the Befunge-93 torus is 80x25": "C03",
 "{ and } do not overflow the C++ stack for large counts": "C29",
 "division and remainder of the least cell by -1 do not trap": "C01",
 "SGML strings accept any cell value": "C29",
 "a third universe of the same name gets a name of its own": "C26",
 "an empty option value is reported, not dereferenced": "C28",
 "FPSP reads and writes only the bytes of a float": "C17",
 "FPSP and FPDP R reflect on text that is not a number": "C17",
 "stack rolls do not overflow the C++ stack for large counts": "C29",
 "SUBR C and R accept any count": "C29",
 "shifting or reversing an empty or large stack stays in bounds": "C29",
 "BASE prints negative numbers": "C18",
 "BASE I accepts exactly the digits of the base, in either case": "C18",
 "BASE prints the decimal digits of base 64": "C18",
 "BASE prints digit 83 of base 85 as }": "C18",
 "STRN V handles every cell value and reflects on other text": "C18",
 "STRN G reflects when the string has no end": "C18",
 "DIRF obeys -fno-filesystem": "C14",
 "DIRF reflects when the directory operation fails": "C19",
 "NFUN X, Y and Z reflect on impossible dimensions": "C22",
 "NFUN X, Y and Z raise the dimensions to include the axis they move along": "C22",
 "TOYS T checks the dimension before using it": "C20",
 "BITW and TOYS shifts are defined for any distance": "C16",
 "FIXP D accepts negative and large limits": "C16",
 "loading DBUG binds its instructions": "C15",
 "unloading a fingerprint that is not loaded reflects": "C15",
 "BeQunge and funge-lib files have the dimensions they state": "C08",
 "stack operations use the selected stack and never one below the last": "C24",
 "><> remainder by -1 does not trap": "C23",
 "><> register gives its value back": "C23",
 "><> always has a register": "C23",
 "IIPC A reflects for an original IP and outlives the ancestor": "C27",
 "PERL code reaches perl unchanged by the shell": "C19",
 "FPRT uses only formats that fit its argument": "C18",
 "i counts a last line without a line end": "C09",
 "i pushes the point it was given, as o expects it": "C09",
 "multiverse files may be in the working directory and have blank lines": "C26",
 "BeQunge and funge-lib bytes above 127 load as their own value": "C08",
 "malformed numbers in BeQunge files are reported, not fatal": "C08",
 "SUBR J continues at its target, like C": "C19",
 "a split IP's stack stack is in the same order as the original": "C12",
 "o writes the whole line in Unefunge": "C09",
 "><> [ and ] move values in their order": "C23",
 "the first q decides the exit code": "C12",
 "-l looks at the whole fingerprint name": "C15",
 "the bindings of ended IPs and unloaded fingerprints are freed": "C35",
 "native threads are joined and their IPs freed when they end": "C35",
}
