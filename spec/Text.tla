---- MODULE Text ----
(* Character classes, string helpers, error names and error pointers.  Everything is a
   function of the arguments: there is one state.
   Bytes 0..127 follow the ASCII definition in every form; the run-time table also
   classifies the upper half as Latin-1 does, the constant forms know ASCII only. *)
EXTENDS Lib

Upper == 65..90
Lower == 97..122
Digit == 48..57
Ascii == 0..127
Graph == 33..126
Alpha == Upper \cup Lower
Alnum == Alpha \cup Digit
(* the classes in the order the driver reports them *)
InAscii(c) == << c \in Upper, c \in Lower, c \in (0..31) \cup {127}, c \in Graph \ Alnum, c \in {9, 32}, c \in Digit,
                 c \in Digit \cup (65..70) \cup (97..102), c \in (9..13) \cup {32}, c \in Ascii,
                 c \in Alpha, c \in Alnum, c \in Graph, c \in 32..126 >>
Upper1 == (192..222) \ {215}
Lower1 == (223..255) \ {247}
Punct1 == (161..191) \cup {215, 247}
InLatin1(c) == << c \in Upper1, c \in Lower1, FALSE, c \in Punct1, FALSE, FALSE, FALSE, c = 160, FALSE,
                  c \in Upper1 \cup Lower1, c \in Upper1 \cup Lower1, c \in 161..255, c \in 160..255 >>
Flags(v) == [i \in 1..Len(v) |-> B(v[i])]
Byte(c) == c % 256
Class(c) == Flags(IF Byte(c) < 128 THEN InAscii(Byte(c)) ELSE InLatin1(Byte(c)))
ToAscii(c) == Byte(c) % 128
ToLower(c) == IF Byte(c) \in Upper THEN Byte(c) + 32 ELSE Byte(c)
ToUpper(c) == IF Byte(c) \in Lower THEN Byte(c) - 32 ELSE Byte(c)

(* error names: sorted by code *)
Table == <<
  <<0, "ENOERR", "No error">>,
  <<1, "EPERM", "Operation not permitted">>,
  <<2, "ENOENT", "No such file or directory">>,
  <<3, "ESRCH", "No such process">>,
  <<4, "EINTR", "Interrupted system call">>,
  <<5, "EIO", "I/O error">>,
  <<6, "ENXIO", "No such device or address">>,
  <<7, "E2BIG", "Argument list too long">>,
  <<8, "ENOEXEC", "Exec format error">>,
  <<9, "EBADF", "Bad file number">>,
  <<10, "ECHILD", "No child processes">>,
  <<11, "EAGAIN", "Try again">>,
  <<12, "ENOMEM", "Out of memory">>,
  <<13, "EACCES", "Permission denied">>,
  <<14, "EFAULT", "Bad address">>,
  <<15, "ENOTBLK", "Block device required">>,
  <<16, "EBUSY", "Device or resource busy">>,
  <<17, "EEXIST", "File exists">>,
  <<18, "EXDEV", "Cross-device link">>,
  <<19, "ENODEV", "No such device">>,
  <<20, "ENOTDIR", "Not a directory">>,
  <<21, "EISDIR", "Is a directory">>,
  <<22, "EINVAL", "Invalid argument">>,
  <<23, "ENFILE", "File table overflow">>,
  <<24, "EMFILE", "Too many open files">>,
  <<25, "ENOTTY", "Not a typewriter">>,
  <<26, "ETXTBSY", "Text file busy">>,
  <<27, "EFBIG", "File too large">>,
  <<28, "ENOSPC", "No space left on device">>,
  <<29, "ESPIPE", "Illegal seek">>,
  <<30, "EROFS", "Read-only file system">>,
  <<31, "EMLINK", "Too many links">>,
  <<32, "EPIPE", "Broken pipe">>,
  <<33, "EDOM", "Math argument out of domain of func">>,
  <<34, "ERANGE", "Math result not representable">>,
  <<35, "EDEADLK", "Resource deadlock would occur">>,
  <<36, "ENAMETOOLONG", "File name too long">>,
  <<37, "ENOLCK", "No record locks available">>,
  <<38, "ENOSYS", "Invalid system call number">>,
  <<59, "EBFONT", "Bad font file format">>,
  <<60, "ENOSTR", "Device not a stream">>,
  <<61, "ENODATA", "No data available">>,
  <<62, "ETIME", "Timer expired">>,
  <<63, "ENOSR", "Out of streams resources">>,
  <<64, "ENONET", "Machine is not on the network">>,
  <<65, "ENOPKG", "Package not installed">>,
  <<66, "EREMOTE", "Object is remote">>,
  <<67, "ENOLINK", "Link has been severed">>,
  <<68, "EADV", "Advertise error">>,
  <<69, "ESRMNT", "Srmount error">>,
  <<70, "ECOMM", "Communication error on send">>,
  <<71, "EPROTO", "Protocol error">>,
  <<72, "EMULTIHOP", "Multihop attempted">>,
  <<73, "EDOTDOT", "RFS specific error">>,
  <<74, "EBADMSG", "Not a data message">>,
  <<75, "EOVERFLOW", "Value too large for defined data type">>,
  <<76, "ENOTUNIQ", "Name not unique on network">>,
  <<77, "EBADFD", "File descriptor in bad state">>,
  <<78, "EREMCHG", "Remote address changed">>,
  <<79, "ELIBACC", "Can not access a needed shared library">>,
  <<80, "ELIBBAD", "Accessing a corrupted shared library">>,
  <<81, "ELIBSCN", ".lib section in a.out corrupted">>,
  <<82, "ELIBMAX", "Attempting to link in too many shared libraries">>,
  <<83, "ELIBEXEC", "Cannot exec a shared library directly">>,
  <<84, "EILSEQ", "Illegal byte sequence">>,
  <<85, "ERESTART", "Interrupted system call should be restarted">>,
  <<86, "ESTRPIPE", "Streams pipe error">>,
  <<87, "EUSERS", "Too many users">>,
  <<88, "ENOTSOCK", "Socket operation on non-socket">>,
  <<89, "EDESTADDRREQ", "Destination address required">>,
  <<90, "EMSGSIZE", "Message too long">>,
  <<91, "EPROTOTYPE", "Protocol wrong type for socket">>,
  <<92, "ENOPROTOOPT", "Protocol not available">>,
  <<93, "EPROTONOSUPPORT", "Protocol not supported">>,
  <<94, "ESOCKTNOSUPPORT", "Socket type not supported">>,
  <<95, "EOPNOTSUPP", "Operation not supported on transport endpoint">>,
  <<96, "EPFNOSUPPORT", "Protocol family not supported">>,
  <<97, "EAFNOSUPPORT", "Address family not supported by protocol">>,
  <<98, "EADDRINUSE", "Address already in use">>,
  <<99, "EADDRNOTAVAIL", "Cannot assign requested address">>,
  <<100, "ENETDOWN", "Network is down">>,
  <<101, "ENETUNREACH", "Network is unreachable">>,
  <<102, "ENETRESET", "Network dropped connection because of reset">>,
  <<103, "ECONNABORTED", "Software caused connection abort">>,
  <<104, "ECONNRESET", "Connection reset by peer">>,
  <<105, "ENOBUFS", "No buffer space available">>,
  <<106, "EISCONN", "Transport endpoint is already connected">>,
  <<107, "ENOTCONN", "Transport endpoint is not connected">>,
  <<108, "ESHUTDOWN", "Cannot send after transport endpoint shutdown">>,
  <<109, "ETOOMANYREFS", "Too many references: cannot splice">>,
  <<110, "ETIMEDOUT", "Connection timed out">>,
  <<111, "ECONNREFUSED", "Connection refused">>,
  <<112, "EHOSTDOWN", "Host is down">>,
  <<113, "EHOSTUNREACH", "No route to host">>,
  <<114, "EALREADY", "Operation already in progress">>,
  <<115, "EINPROGRESS", "Operation now in progress">>,
  <<116, "ESTALE", "Stale file handle">>,
  <<117, "EUCLEAN", "Structure needs cleaning">>,
  <<118, "ENOTNAM", "Not a XENIX named type file">>,
  <<119, "ENAVAIL", "No XENIX semaphores available">>,
  <<120, "EISNAM", "Is a named type file">>,
  <<121, "EREMOTEIO", "Remote I/O error">>,
  <<122, "EDQUOT", "Quota exceeded">>,
  <<123, "ENOMEDIUM", "No medium found">>,
  <<124, "EMEDIUMTYPE", "Wrong medium type">>,
  <<125, "ECANCELED", "Operation Canceled">>,
  <<126, "ENOKEY", "Required key not available">>,
  <<127, "EKEYEXPIRED", "Key has expired">>,
  <<128, "EKEYREVOKED", "Key has been revoked">>,
  <<129, "EKEYREJECTED", "Key was rejected by service">>
>>
Codes == {Table[i][1] : i \in DOMAIN Table}
ByCode == [c \in Codes |-> CHOOSE i \in DOMAIN Table : Table[i][1] = c]
(* a 32-bit code as two 16-bit limbs *)
Known(l) == \/ l[2] = 0 /\ l[1] \in Codes
            \/ l[2] = 65535 /\ (65536 - l[1]) \in Codes
Entry(l) == Table[ByCode[IF l[2] = 0 THEN l[1] ELSE 65536 - l[1]]]
Names(l) == IF ~Known(l) THEN {<<-1, "", "">>}
            ELSE IF l = <<0, 0>> THEN {<<0, "ENOERR", Entry(l)[3]>>, <<0, "-ENOERR", Entry(l)[3]>>}
            ELSE IF l[2] = 0 THEN {<<Entry(l)[1], Entry(l)[2], Entry(l)[3]>>}
            ELSE {<<Entry(l)[1], "-" \o Entry(l)[2], Entry(l)[3]>>}

(* pointers: four 16-bit limbs; the last 4096 addresses are error codes *)
Ones == 65535
IsErr(p) == p[2] = Ones /\ p[3] = Ones /\ p[4] = Ones /\ p[1] >= Ones - 4095
IsNull(p) == p = <<0, 0, 0, 0>>
Low32(p) == <<p[1], p[2]>>
MinusPerm == <<Ones, Ones>>
Zero == <<0, 0>>
(* is_err, is_inval, err (an int is only promised for error pointers and null), err_zero, inval, inval_zero *)
Ptr(p) == << B(IsErr(p)), B(IsErr(p) \/ IsNull(p)), IF IsErr(p) \/ IsNull(p) THEN Low32(p) ELSE Zero,
             IF IsErr(p) THEN Low32(p) ELSE Zero,
             IF IsErr(p) THEN Low32(p) ELSE IF IsNull(p) THEN MinusPerm ELSE Zero,
             IF IsErr(p) THEN Low32(p) ELSE IF IsNull(p) THEN MinusPerm ELSE Zero >>
SignExtend(l) == IF l[2] >= 32768 THEN <<l[1], l[2], Ones, Ones>> ELSE <<l[1], l[2], 0, 0>>

Prefix(m, n) == IF n < 0 THEN m ELSE Take(m, n)
FirstDiff(m, c) == IF \A i \in DOMAIN m : m[i] = Byte(c) THEN -1 ELSE MinSet({i \in DOMAIN m : m[i] # Byte(c)}) - 1

Step(s, op, a) ==
  LET one(r) == {[s |-> s, r |-> r]}
  IN CASE op = "class" -> one(<<Class(a[1]), IF a[1] \in 0..255 THEN Flags(InAscii(a[1])) ELSE <<>>,
                                IF a[1] \in Ascii THEN Flags(InAscii(a[1])) ELSE <<>>,
                                <<ToAscii(a[1]), ToLower(a[1]), ToUpper(a[1])>>>>)
       [] op = "dup" -> one(<<1, Prefix(a[1], a[2])>>)
       [] op = "dupfail" -> one(<<0, <<>>>>)
       [] op = "dupnull" -> one(<<0, <<>>>>)
       [] op = "strdiff" -> one(FirstDiff(a[1], a[2]))
       [] op = "memdiff" -> one(FirstDiff(Take(a[1], a[2]), a[3]))
       [] op = "err" -> {[s |-> s, r |-> r] : r \in Names(a[1])}
       [] op = "ptr" -> one(Ptr(a[1]))
       [] op = "eptr" -> one(<<SignExtend(a[1]), a[1]>>)
       [] op = "halves" -> one(<<<<a[1][3], a[1][4]>>, <<a[1][1], a[1][2]>>, a[1][2], a[1][1]>>)
       [] OTHER -> {}

(* the ASCII classes partition and nest as they should, case conversion is an involution on letters, codes are distinct *)
Inv(s) ==
  /\ \A c \in 0..127 : LET v == InAscii(c) IN
       /\ v[10] = (v[1] \/ v[2]) /\ ~(v[1] /\ v[2]) /\ v[11] = (v[10] \/ v[6])
       /\ v[12] = (v[4] \/ v[11]) /\ ~(v[4] /\ v[11]) /\ v[13] = (v[12] \/ c = 32) /\ v[3] # v[13]
       /\ (v[5] => v[8]) /\ (v[6] => v[7]) /\ (v[7] => v[11]) /\ v[9]
       /\ (v[10] => ToLower(ToUpper(c)) = ToLower(c) /\ ToUpper(ToLower(c)) = ToUpper(c) /\ ToLower(c) # ToUpper(c))
       /\ (~v[10] => ToLower(c) = c /\ ToUpper(c) = c)
  /\ \A i, j \in DOMAIN Table : i # j => Table[i][1] # Table[j][1] /\ Table[i][2] # Table[j][2]
====
