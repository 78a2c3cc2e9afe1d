// Code generated from the real package's exported names.

package syscall

import zz "syscall"

const (
	AF_ALG = zz.AF_ALG
	AF_APPLETALK = zz.AF_APPLETALK
	AF_ASH = zz.AF_ASH
	AF_ATMPVC = zz.AF_ATMPVC
	AF_ATMSVC = zz.AF_ATMSVC
	AF_AX25 = zz.AF_AX25
	AF_BLUETOOTH = zz.AF_BLUETOOTH
	AF_BRIDGE = zz.AF_BRIDGE
	AF_CAIF = zz.AF_CAIF
	AF_CAN = zz.AF_CAN
	AF_DECnet = zz.AF_DECnet
	AF_ECONET = zz.AF_ECONET
	AF_FILE = zz.AF_FILE
	AF_IEEE802154 = zz.AF_IEEE802154
	AF_INET = zz.AF_INET
	AF_INET6 = zz.AF_INET6
	AF_IPX = zz.AF_IPX
	AF_IRDA = zz.AF_IRDA
	AF_ISDN = zz.AF_ISDN
	AF_IUCV = zz.AF_IUCV
	AF_KEY = zz.AF_KEY
	AF_LLC = zz.AF_LLC
	AF_LOCAL = zz.AF_LOCAL
	AF_MAX = zz.AF_MAX
	AF_NETBEUI = zz.AF_NETBEUI
	AF_NETLINK = zz.AF_NETLINK
	AF_NETROM = zz.AF_NETROM
	AF_PACKET = zz.AF_PACKET
	AF_PHONET = zz.AF_PHONET
	AF_PPPOX = zz.AF_PPPOX
	AF_RDS = zz.AF_RDS
	AF_ROSE = zz.AF_ROSE
	AF_ROUTE = zz.AF_ROUTE
	AF_RXRPC = zz.AF_RXRPC
	AF_SECURITY = zz.AF_SECURITY
	AF_SNA = zz.AF_SNA
	AF_TIPC = zz.AF_TIPC
	AF_UNIX = zz.AF_UNIX
	AF_UNSPEC = zz.AF_UNSPEC
	AF_WANPIPE = zz.AF_WANPIPE
	AF_X25 = zz.AF_X25
	ARPHRD_ADAPT = zz.ARPHRD_ADAPT
	ARPHRD_APPLETLK = zz.ARPHRD_APPLETLK
	ARPHRD_ARCNET = zz.ARPHRD_ARCNET
	ARPHRD_ASH = zz.ARPHRD_ASH
	ARPHRD_ATM = zz.ARPHRD_ATM
	ARPHRD_AX25 = zz.ARPHRD_AX25
	ARPHRD_BIF = zz.ARPHRD_BIF
	ARPHRD_CHAOS = zz.ARPHRD_CHAOS
	ARPHRD_CISCO = zz.ARPHRD_CISCO
	ARPHRD_CSLIP = zz.ARPHRD_CSLIP
	ARPHRD_CSLIP6 = zz.ARPHRD_CSLIP6
	ARPHRD_DDCMP = zz.ARPHRD_DDCMP
	ARPHRD_DLCI = zz.ARPHRD_DLCI
	ARPHRD_ECONET = zz.ARPHRD_ECONET
	ARPHRD_EETHER = zz.ARPHRD_EETHER
	ARPHRD_ETHER = zz.ARPHRD_ETHER
	ARPHRD_EUI64 = zz.ARPHRD_EUI64
	ARPHRD_FCAL = zz.ARPHRD_FCAL
	ARPHRD_FCFABRIC = zz.ARPHRD_FCFABRIC
	ARPHRD_FCPL = zz.ARPHRD_FCPL
	ARPHRD_FCPP = zz.ARPHRD_FCPP
	ARPHRD_FDDI = zz.ARPHRD_FDDI
	ARPHRD_FRAD = zz.ARPHRD_FRAD
	ARPHRD_HDLC = zz.ARPHRD_HDLC
	ARPHRD_HIPPI = zz.ARPHRD_HIPPI
	ARPHRD_HWX25 = zz.ARPHRD_HWX25
	ARPHRD_IEEE1394 = zz.ARPHRD_IEEE1394
	ARPHRD_IEEE802 = zz.ARPHRD_IEEE802
	ARPHRD_IEEE80211 = zz.ARPHRD_IEEE80211
	ARPHRD_IEEE80211_PRISM = zz.ARPHRD_IEEE80211_PRISM
	ARPHRD_IEEE80211_RADIOTAP = zz.ARPHRD_IEEE80211_RADIOTAP
	ARPHRD_IEEE802154 = zz.ARPHRD_IEEE802154
	ARPHRD_IEEE802154_PHY = zz.ARPHRD_IEEE802154_PHY
	ARPHRD_IEEE802_TR = zz.ARPHRD_IEEE802_TR
	ARPHRD_INFINIBAND = zz.ARPHRD_INFINIBAND
	ARPHRD_IPDDP = zz.ARPHRD_IPDDP
	ARPHRD_IPGRE = zz.ARPHRD_IPGRE
	ARPHRD_IRDA = zz.ARPHRD_IRDA
	ARPHRD_LAPB = zz.ARPHRD_LAPB
	ARPHRD_LOCALTLK = zz.ARPHRD_LOCALTLK
	ARPHRD_LOOPBACK = zz.ARPHRD_LOOPBACK
	ARPHRD_METRICOM = zz.ARPHRD_METRICOM
	ARPHRD_NETROM = zz.ARPHRD_NETROM
	ARPHRD_NONE = zz.ARPHRD_NONE
	ARPHRD_PIMREG = zz.ARPHRD_PIMREG
	ARPHRD_PPP = zz.ARPHRD_PPP
	ARPHRD_PRONET = zz.ARPHRD_PRONET
	ARPHRD_RAWHDLC = zz.ARPHRD_RAWHDLC
	ARPHRD_ROSE = zz.ARPHRD_ROSE
	ARPHRD_RSRVD = zz.ARPHRD_RSRVD
	ARPHRD_SIT = zz.ARPHRD_SIT
	ARPHRD_SKIP = zz.ARPHRD_SKIP
	ARPHRD_SLIP = zz.ARPHRD_SLIP
	ARPHRD_SLIP6 = zz.ARPHRD_SLIP6
	ARPHRD_TUNNEL = zz.ARPHRD_TUNNEL
	ARPHRD_TUNNEL6 = zz.ARPHRD_TUNNEL6
	ARPHRD_VOID = zz.ARPHRD_VOID
	ARPHRD_X25 = zz.ARPHRD_X25
	B0 = zz.B0
	B1000000 = zz.B1000000
	B110 = zz.B110
	B115200 = zz.B115200
	B1152000 = zz.B1152000
	B1200 = zz.B1200
	B134 = zz.B134
	B150 = zz.B150
	B1500000 = zz.B1500000
	B1800 = zz.B1800
	B19200 = zz.B19200
	B200 = zz.B200
	B2000000 = zz.B2000000
	B230400 = zz.B230400
	B2400 = zz.B2400
	B2500000 = zz.B2500000
	B300 = zz.B300
	B3000000 = zz.B3000000
	B3500000 = zz.B3500000
	B38400 = zz.B38400
	B4000000 = zz.B4000000
	B460800 = zz.B460800
	B4800 = zz.B4800
	B50 = zz.B50
	B500000 = zz.B500000
	B57600 = zz.B57600
	B576000 = zz.B576000
	B600 = zz.B600
	B75 = zz.B75
	B921600 = zz.B921600
	B9600 = zz.B9600
	BPF_A = zz.BPF_A
	BPF_ABS = zz.BPF_ABS
	BPF_ADD = zz.BPF_ADD
	BPF_ALU = zz.BPF_ALU
	BPF_AND = zz.BPF_AND
	BPF_B = zz.BPF_B
	BPF_DIV = zz.BPF_DIV
	BPF_H = zz.BPF_H
	BPF_IMM = zz.BPF_IMM
	BPF_IND = zz.BPF_IND
	BPF_JA = zz.BPF_JA
	BPF_JEQ = zz.BPF_JEQ
	BPF_JGE = zz.BPF_JGE
	BPF_JGT = zz.BPF_JGT
	BPF_JMP = zz.BPF_JMP
	BPF_JSET = zz.BPF_JSET
	BPF_K = zz.BPF_K
	BPF_LD = zz.BPF_LD
	BPF_LDX = zz.BPF_LDX
	BPF_LEN = zz.BPF_LEN
	BPF_LSH = zz.BPF_LSH
	BPF_MAJOR_VERSION = zz.BPF_MAJOR_VERSION
	BPF_MAXINSNS = zz.BPF_MAXINSNS
	BPF_MEM = zz.BPF_MEM
	BPF_MEMWORDS = zz.BPF_MEMWORDS
	BPF_MINOR_VERSION = zz.BPF_MINOR_VERSION
	BPF_MISC = zz.BPF_MISC
	BPF_MSH = zz.BPF_MSH
	BPF_MUL = zz.BPF_MUL
	BPF_NEG = zz.BPF_NEG
	BPF_OR = zz.BPF_OR
	BPF_RET = zz.BPF_RET
	BPF_RSH = zz.BPF_RSH
	BPF_ST = zz.BPF_ST
	BPF_STX = zz.BPF_STX
	BPF_SUB = zz.BPF_SUB
	BPF_TAX = zz.BPF_TAX
	BPF_TXA = zz.BPF_TXA
	BPF_W = zz.BPF_W
	BPF_X = zz.BPF_X
	BRKINT = zz.BRKINT
	CLOCAL = zz.CLOCAL
	CLONE_CHILD_CLEARTID = zz.CLONE_CHILD_CLEARTID
	CLONE_CHILD_SETTID = zz.CLONE_CHILD_SETTID
	CLONE_CLEAR_SIGHAND = zz.CLONE_CLEAR_SIGHAND
	CLONE_DETACHED = zz.CLONE_DETACHED
	CLONE_FILES = zz.CLONE_FILES
	CLONE_FS = zz.CLONE_FS
	CLONE_INTO_CGROUP = zz.CLONE_INTO_CGROUP
	CLONE_IO = zz.CLONE_IO
	CLONE_NEWCGROUP = zz.CLONE_NEWCGROUP
	CLONE_NEWIPC = zz.CLONE_NEWIPC
	CLONE_NEWNET = zz.CLONE_NEWNET
	CLONE_NEWNS = zz.CLONE_NEWNS
	CLONE_NEWPID = zz.CLONE_NEWPID
	CLONE_NEWTIME = zz.CLONE_NEWTIME
	CLONE_NEWUSER = zz.CLONE_NEWUSER
	CLONE_NEWUTS = zz.CLONE_NEWUTS
	CLONE_PARENT = zz.CLONE_PARENT
	CLONE_PARENT_SETTID = zz.CLONE_PARENT_SETTID
	CLONE_PIDFD = zz.CLONE_PIDFD
	CLONE_PTRACE = zz.CLONE_PTRACE
	CLONE_SETTLS = zz.CLONE_SETTLS
	CLONE_SIGHAND = zz.CLONE_SIGHAND
	CLONE_SYSVSEM = zz.CLONE_SYSVSEM
	CLONE_THREAD = zz.CLONE_THREAD
	CLONE_UNTRACED = zz.CLONE_UNTRACED
	CLONE_VFORK = zz.CLONE_VFORK
	CLONE_VM = zz.CLONE_VM
	CREAD = zz.CREAD
	CS5 = zz.CS5
	CS6 = zz.CS6
	CS7 = zz.CS7
	CS8 = zz.CS8
	CSIZE = zz.CSIZE
	CSTOPB = zz.CSTOPB
	DT_BLK = zz.DT_BLK
	DT_CHR = zz.DT_CHR
	DT_DIR = zz.DT_DIR
	DT_FIFO = zz.DT_FIFO
	DT_LNK = zz.DT_LNK
	DT_REG = zz.DT_REG
	DT_SOCK = zz.DT_SOCK
	DT_UNKNOWN = zz.DT_UNKNOWN
	DT_WHT = zz.DT_WHT
	E2BIG = zz.E2BIG
	EACCES = zz.EACCES
	EADDRINUSE = zz.EADDRINUSE
	EADDRNOTAVAIL = zz.EADDRNOTAVAIL
	EADV = zz.EADV
	EAFNOSUPPORT = zz.EAFNOSUPPORT
	EAGAIN = zz.EAGAIN
	EALREADY = zz.EALREADY
	EBADE = zz.EBADE
	EBADF = zz.EBADF
	EBADFD = zz.EBADFD
	EBADMSG = zz.EBADMSG
	EBADR = zz.EBADR
	EBADRQC = zz.EBADRQC
	EBADSLT = zz.EBADSLT
	EBFONT = zz.EBFONT
	EBUSY = zz.EBUSY
	ECANCELED = zz.ECANCELED
	ECHILD = zz.ECHILD
	ECHO = zz.ECHO
	ECHOCTL = zz.ECHOCTL
	ECHOE = zz.ECHOE
	ECHOK = zz.ECHOK
	ECHOKE = zz.ECHOKE
	ECHONL = zz.ECHONL
	ECHOPRT = zz.ECHOPRT
	ECHRNG = zz.ECHRNG
	ECOMM = zz.ECOMM
	ECONNABORTED = zz.ECONNABORTED
	ECONNREFUSED = zz.ECONNREFUSED
	ECONNRESET = zz.ECONNRESET
	EDEADLK = zz.EDEADLK
	EDEADLOCK = zz.EDEADLOCK
	EDESTADDRREQ = zz.EDESTADDRREQ
	EDOM = zz.EDOM
	EDOTDOT = zz.EDOTDOT
	EDQUOT = zz.EDQUOT
	EEXIST = zz.EEXIST
	EFAULT = zz.EFAULT
	EFBIG = zz.EFBIG
	EHOSTDOWN = zz.EHOSTDOWN
	EHOSTUNREACH = zz.EHOSTUNREACH
	EIDRM = zz.EIDRM
	EILSEQ = zz.EILSEQ
	EINPROGRESS = zz.EINPROGRESS
	EINTR = zz.EINTR
	EINVAL = zz.EINVAL
	EIO = zz.EIO
	EISCONN = zz.EISCONN
	EISDIR = zz.EISDIR
	EISNAM = zz.EISNAM
	EKEYEXPIRED = zz.EKEYEXPIRED
	EKEYREJECTED = zz.EKEYREJECTED
	EKEYREVOKED = zz.EKEYREVOKED
	EL2HLT = zz.EL2HLT
	EL2NSYNC = zz.EL2NSYNC
	EL3HLT = zz.EL3HLT
	EL3RST = zz.EL3RST
	ELIBACC = zz.ELIBACC
	ELIBBAD = zz.ELIBBAD
	ELIBEXEC = zz.ELIBEXEC
	ELIBMAX = zz.ELIBMAX
	ELIBSCN = zz.ELIBSCN
	ELNRNG = zz.ELNRNG
	ELOOP = zz.ELOOP
	EMEDIUMTYPE = zz.EMEDIUMTYPE
	EMFILE = zz.EMFILE
	EMLINK = zz.EMLINK
	EMSGSIZE = zz.EMSGSIZE
	EMULTIHOP = zz.EMULTIHOP
	ENAMETOOLONG = zz.ENAMETOOLONG
	ENAVAIL = zz.ENAVAIL
	ENETDOWN = zz.ENETDOWN
	ENETRESET = zz.ENETRESET
	ENETUNREACH = zz.ENETUNREACH
	ENFILE = zz.ENFILE
	ENOANO = zz.ENOANO
	ENOBUFS = zz.ENOBUFS
	ENOCSI = zz.ENOCSI
	ENODATA = zz.ENODATA
	ENODEV = zz.ENODEV
	ENOENT = zz.ENOENT
	ENOEXEC = zz.ENOEXEC
	ENOKEY = zz.ENOKEY
	ENOLCK = zz.ENOLCK
	ENOLINK = zz.ENOLINK
	ENOMEDIUM = zz.ENOMEDIUM
	ENOMEM = zz.ENOMEM
	ENOMSG = zz.ENOMSG
	ENONET = zz.ENONET
	ENOPKG = zz.ENOPKG
	ENOPROTOOPT = zz.ENOPROTOOPT
	ENOSPC = zz.ENOSPC
	ENOSR = zz.ENOSR
	ENOSTR = zz.ENOSTR
	ENOSYS = zz.ENOSYS
	ENOTBLK = zz.ENOTBLK
	ENOTCONN = zz.ENOTCONN
	ENOTDIR = zz.ENOTDIR
	ENOTEMPTY = zz.ENOTEMPTY
	ENOTNAM = zz.ENOTNAM
	ENOTRECOVERABLE = zz.ENOTRECOVERABLE
	ENOTSOCK = zz.ENOTSOCK
	ENOTSUP = zz.ENOTSUP
	ENOTTY = zz.ENOTTY
	ENOTUNIQ = zz.ENOTUNIQ
	ENXIO = zz.ENXIO
	EOPNOTSUPP = zz.EOPNOTSUPP
	EOVERFLOW = zz.EOVERFLOW
	EOWNERDEAD = zz.EOWNERDEAD
	EPERM = zz.EPERM
	EPFNOSUPPORT = zz.EPFNOSUPPORT
	EPIPE = zz.EPIPE
	EPOLLERR = zz.EPOLLERR
	EPOLLET = zz.EPOLLET
	EPOLLHUP = zz.EPOLLHUP
	EPOLLIN = zz.EPOLLIN
	EPOLLMSG = zz.EPOLLMSG
	EPOLLONESHOT = zz.EPOLLONESHOT
	EPOLLOUT = zz.EPOLLOUT
	EPOLLPRI = zz.EPOLLPRI
	EPOLLRDBAND = zz.EPOLLRDBAND
	EPOLLRDHUP = zz.EPOLLRDHUP
	EPOLLRDNORM = zz.EPOLLRDNORM
	EPOLLWRBAND = zz.EPOLLWRBAND
	EPOLLWRNORM = zz.EPOLLWRNORM
	EPOLL_CLOEXEC = zz.EPOLL_CLOEXEC
	EPOLL_CTL_ADD = zz.EPOLL_CTL_ADD
	EPOLL_CTL_DEL = zz.EPOLL_CTL_DEL
	EPOLL_CTL_MOD = zz.EPOLL_CTL_MOD
	EPOLL_NONBLOCK = zz.EPOLL_NONBLOCK
	EPROTO = zz.EPROTO
	EPROTONOSUPPORT = zz.EPROTONOSUPPORT
	EPROTOTYPE = zz.EPROTOTYPE
	ERANGE = zz.ERANGE
	EREMCHG = zz.EREMCHG
	EREMOTE = zz.EREMOTE
	EREMOTEIO = zz.EREMOTEIO
	ERESTART = zz.ERESTART
	ERFKILL = zz.ERFKILL
	EROFS = zz.EROFS
	ESHUTDOWN = zz.ESHUTDOWN
	ESOCKTNOSUPPORT = zz.ESOCKTNOSUPPORT
	ESPIPE = zz.ESPIPE
	ESRCH = zz.ESRCH
	ESRMNT = zz.ESRMNT
	ESTALE = zz.ESTALE
	ESTRPIPE = zz.ESTRPIPE
	ETH_P_1588 = zz.ETH_P_1588
	ETH_P_8021Q = zz.ETH_P_8021Q
	ETH_P_802_2 = zz.ETH_P_802_2
	ETH_P_802_3 = zz.ETH_P_802_3
	ETH_P_AARP = zz.ETH_P_AARP
	ETH_P_ALL = zz.ETH_P_ALL
	ETH_P_AOE = zz.ETH_P_AOE
	ETH_P_ARCNET = zz.ETH_P_ARCNET
	ETH_P_ARP = zz.ETH_P_ARP
	ETH_P_ATALK = zz.ETH_P_ATALK
	ETH_P_ATMFATE = zz.ETH_P_ATMFATE
	ETH_P_ATMMPOA = zz.ETH_P_ATMMPOA
	ETH_P_AX25 = zz.ETH_P_AX25
	ETH_P_BPQ = zz.ETH_P_BPQ
	ETH_P_CAIF = zz.ETH_P_CAIF
	ETH_P_CAN = zz.ETH_P_CAN
	ETH_P_CONTROL = zz.ETH_P_CONTROL
	ETH_P_CUST = zz.ETH_P_CUST
	ETH_P_DDCMP = zz.ETH_P_DDCMP
	ETH_P_DEC = zz.ETH_P_DEC
	ETH_P_DIAG = zz.ETH_P_DIAG
	ETH_P_DNA_DL = zz.ETH_P_DNA_DL
	ETH_P_DNA_RC = zz.ETH_P_DNA_RC
	ETH_P_DNA_RT = zz.ETH_P_DNA_RT
	ETH_P_DSA = zz.ETH_P_DSA
	ETH_P_ECONET = zz.ETH_P_ECONET
	ETH_P_EDSA = zz.ETH_P_EDSA
	ETH_P_FCOE = zz.ETH_P_FCOE
	ETH_P_FIP = zz.ETH_P_FIP
	ETH_P_HDLC = zz.ETH_P_HDLC
	ETH_P_IEEE802154 = zz.ETH_P_IEEE802154
	ETH_P_IEEEPUP = zz.ETH_P_IEEEPUP
	ETH_P_IEEEPUPAT = zz.ETH_P_IEEEPUPAT
	ETH_P_IP = zz.ETH_P_IP
	ETH_P_IPV6 = zz.ETH_P_IPV6
	ETH_P_IPX = zz.ETH_P_IPX
	ETH_P_IRDA = zz.ETH_P_IRDA
	ETH_P_LAT = zz.ETH_P_LAT
	ETH_P_LINK_CTL = zz.ETH_P_LINK_CTL
	ETH_P_LOCALTALK = zz.ETH_P_LOCALTALK
	ETH_P_LOOP = zz.ETH_P_LOOP
	ETH_P_MOBITEX = zz.ETH_P_MOBITEX
	ETH_P_MPLS_MC = zz.ETH_P_MPLS_MC
	ETH_P_MPLS_UC = zz.ETH_P_MPLS_UC
	ETH_P_PAE = zz.ETH_P_PAE
	ETH_P_PAUSE = zz.ETH_P_PAUSE
	ETH_P_PHONET = zz.ETH_P_PHONET
	ETH_P_PPPTALK = zz.ETH_P_PPPTALK
	ETH_P_PPP_DISC = zz.ETH_P_PPP_DISC
	ETH_P_PPP_MP = zz.ETH_P_PPP_MP
	ETH_P_PPP_SES = zz.ETH_P_PPP_SES
	ETH_P_PUP = zz.ETH_P_PUP
	ETH_P_PUPAT = zz.ETH_P_PUPAT
	ETH_P_RARP = zz.ETH_P_RARP
	ETH_P_SCA = zz.ETH_P_SCA
	ETH_P_SLOW = zz.ETH_P_SLOW
	ETH_P_SNAP = zz.ETH_P_SNAP
	ETH_P_TEB = zz.ETH_P_TEB
	ETH_P_TIPC = zz.ETH_P_TIPC
	ETH_P_TRAILER = zz.ETH_P_TRAILER
	ETH_P_TR_802_2 = zz.ETH_P_TR_802_2
	ETH_P_WAN_PPP = zz.ETH_P_WAN_PPP
	ETH_P_WCCP = zz.ETH_P_WCCP
	ETH_P_X25 = zz.ETH_P_X25
	ETIME = zz.ETIME
	ETIMEDOUT = zz.ETIMEDOUT
	ETOOMANYREFS = zz.ETOOMANYREFS
	ETXTBSY = zz.ETXTBSY
	EUCLEAN = zz.EUCLEAN
	EUNATCH = zz.EUNATCH
	EUSERS = zz.EUSERS
	EWOULDBLOCK = zz.EWOULDBLOCK
	EXDEV = zz.EXDEV
	EXFULL = zz.EXFULL
	FD_CLOEXEC = zz.FD_CLOEXEC
	FD_SETSIZE = zz.FD_SETSIZE
	FLUSHO = zz.FLUSHO
	F_DUPFD = zz.F_DUPFD
	F_DUPFD_CLOEXEC = zz.F_DUPFD_CLOEXEC
	F_EXLCK = zz.F_EXLCK
	F_GETFD = zz.F_GETFD
	F_GETFL = zz.F_GETFL
	F_GETLEASE = zz.F_GETLEASE
	F_GETLK = zz.F_GETLK
	F_GETLK64 = zz.F_GETLK64
	F_GETOWN = zz.F_GETOWN
	F_GETOWN_EX = zz.F_GETOWN_EX
	F_GETPIPE_SZ = zz.F_GETPIPE_SZ
	F_GETSIG = zz.F_GETSIG
	F_LOCK = zz.F_LOCK
	F_NOTIFY = zz.F_NOTIFY
	F_OK = zz.F_OK
	F_RDLCK = zz.F_RDLCK
	F_SETFD = zz.F_SETFD
	F_SETFL = zz.F_SETFL
	F_SETLEASE = zz.F_SETLEASE
	F_SETLK = zz.F_SETLK
	F_SETLK64 = zz.F_SETLK64
	F_SETLKW = zz.F_SETLKW
	F_SETLKW64 = zz.F_SETLKW64
	F_SETOWN = zz.F_SETOWN
	F_SETOWN_EX = zz.F_SETOWN_EX
	F_SETPIPE_SZ = zz.F_SETPIPE_SZ
	F_SETSIG = zz.F_SETSIG
	F_SHLCK = zz.F_SHLCK
	F_TEST = zz.F_TEST
	F_TLOCK = zz.F_TLOCK
	F_ULOCK = zz.F_ULOCK
	F_UNLCK = zz.F_UNLCK
	F_WRLCK = zz.F_WRLCK
	HUPCL = zz.HUPCL
	ICANON = zz.ICANON
	ICMPV6_FILTER = zz.ICMPV6_FILTER
	ICRNL = zz.ICRNL
	IEXTEN = zz.IEXTEN
	IFA_ADDRESS = zz.IFA_ADDRESS
	IFA_ANYCAST = zz.IFA_ANYCAST
	IFA_BROADCAST = zz.IFA_BROADCAST
	IFA_CACHEINFO = zz.IFA_CACHEINFO
	IFA_F_DADFAILED = zz.IFA_F_DADFAILED
	IFA_F_DEPRECATED = zz.IFA_F_DEPRECATED
	IFA_F_HOMEADDRESS = zz.IFA_F_HOMEADDRESS
	IFA_F_NODAD = zz.IFA_F_NODAD
	IFA_F_OPTIMISTIC = zz.IFA_F_OPTIMISTIC
	IFA_F_PERMANENT = zz.IFA_F_PERMANENT
	IFA_F_SECONDARY = zz.IFA_F_SECONDARY
	IFA_F_TEMPORARY = zz.IFA_F_TEMPORARY
	IFA_F_TENTATIVE = zz.IFA_F_TENTATIVE
	IFA_LABEL = zz.IFA_LABEL
	IFA_LOCAL = zz.IFA_LOCAL
	IFA_MAX = zz.IFA_MAX
	IFA_MULTICAST = zz.IFA_MULTICAST
	IFA_UNSPEC = zz.IFA_UNSPEC
	IFF_ALLMULTI = zz.IFF_ALLMULTI
	IFF_AUTOMEDIA = zz.IFF_AUTOMEDIA
	IFF_BROADCAST = zz.IFF_BROADCAST
	IFF_DEBUG = zz.IFF_DEBUG
	IFF_DYNAMIC = zz.IFF_DYNAMIC
	IFF_LOOPBACK = zz.IFF_LOOPBACK
	IFF_MASTER = zz.IFF_MASTER
	IFF_MULTICAST = zz.IFF_MULTICAST
	IFF_NOARP = zz.IFF_NOARP
	IFF_NOTRAILERS = zz.IFF_NOTRAILERS
	IFF_NO_PI = zz.IFF_NO_PI
	IFF_ONE_QUEUE = zz.IFF_ONE_QUEUE
	IFF_POINTOPOINT = zz.IFF_POINTOPOINT
	IFF_PORTSEL = zz.IFF_PORTSEL
	IFF_PROMISC = zz.IFF_PROMISC
	IFF_RUNNING = zz.IFF_RUNNING
	IFF_SLAVE = zz.IFF_SLAVE
	IFF_TAP = zz.IFF_TAP
	IFF_TUN = zz.IFF_TUN
	IFF_TUN_EXCL = zz.IFF_TUN_EXCL
	IFF_UP = zz.IFF_UP
	IFF_VNET_HDR = zz.IFF_VNET_HDR
	IFLA_ADDRESS = zz.IFLA_ADDRESS
	IFLA_BROADCAST = zz.IFLA_BROADCAST
	IFLA_COST = zz.IFLA_COST
	IFLA_IFALIAS = zz.IFLA_IFALIAS
	IFLA_IFNAME = zz.IFLA_IFNAME
	IFLA_LINK = zz.IFLA_LINK
	IFLA_LINKINFO = zz.IFLA_LINKINFO
	IFLA_LINKMODE = zz.IFLA_LINKMODE
	IFLA_MAP = zz.IFLA_MAP
	IFLA_MASTER = zz.IFLA_MASTER
	IFLA_MAX = zz.IFLA_MAX
	IFLA_MTU = zz.IFLA_MTU
	IFLA_NET_NS_PID = zz.IFLA_NET_NS_PID
	IFLA_OPERSTATE = zz.IFLA_OPERSTATE
	IFLA_PRIORITY = zz.IFLA_PRIORITY
	IFLA_PROTINFO = zz.IFLA_PROTINFO
	IFLA_QDISC = zz.IFLA_QDISC
	IFLA_STATS = zz.IFLA_STATS
	IFLA_TXQLEN = zz.IFLA_TXQLEN
	IFLA_UNSPEC = zz.IFLA_UNSPEC
	IFLA_WEIGHT = zz.IFLA_WEIGHT
	IFLA_WIRELESS = zz.IFLA_WIRELESS
	IFNAMSIZ = zz.IFNAMSIZ
	IGNBRK = zz.IGNBRK
	IGNCR = zz.IGNCR
	IGNPAR = zz.IGNPAR
	IMAXBEL = zz.IMAXBEL
	INLCR = zz.INLCR
	INPCK = zz.INPCK
	IN_ACCESS = zz.IN_ACCESS
	IN_ALL_EVENTS = zz.IN_ALL_EVENTS
	IN_ATTRIB = zz.IN_ATTRIB
	IN_CLASSA_HOST = zz.IN_CLASSA_HOST
	IN_CLASSA_MAX = zz.IN_CLASSA_MAX
	IN_CLASSA_NET = zz.IN_CLASSA_NET
	IN_CLASSA_NSHIFT = zz.IN_CLASSA_NSHIFT
	IN_CLASSB_HOST = zz.IN_CLASSB_HOST
	IN_CLASSB_MAX = zz.IN_CLASSB_MAX
	IN_CLASSB_NET = zz.IN_CLASSB_NET
	IN_CLASSB_NSHIFT = zz.IN_CLASSB_NSHIFT
	IN_CLASSC_HOST = zz.IN_CLASSC_HOST
	IN_CLASSC_NET = zz.IN_CLASSC_NET
	IN_CLASSC_NSHIFT = zz.IN_CLASSC_NSHIFT
	IN_CLOEXEC = zz.IN_CLOEXEC
	IN_CLOSE = zz.IN_CLOSE
	IN_CLOSE_NOWRITE = zz.IN_CLOSE_NOWRITE
	IN_CLOSE_WRITE = zz.IN_CLOSE_WRITE
	IN_CREATE = zz.IN_CREATE
	IN_DELETE = zz.IN_DELETE
	IN_DELETE_SELF = zz.IN_DELETE_SELF
	IN_DONT_FOLLOW = zz.IN_DONT_FOLLOW
	IN_EXCL_UNLINK = zz.IN_EXCL_UNLINK
	IN_IGNORED = zz.IN_IGNORED
	IN_ISDIR = zz.IN_ISDIR
	IN_LOOPBACKNET = zz.IN_LOOPBACKNET
	IN_MASK_ADD = zz.IN_MASK_ADD
	IN_MODIFY = zz.IN_MODIFY
	IN_MOVE = zz.IN_MOVE
	IN_MOVED_FROM = zz.IN_MOVED_FROM
	IN_MOVED_TO = zz.IN_MOVED_TO
	IN_MOVE_SELF = zz.IN_MOVE_SELF
	IN_NONBLOCK = zz.IN_NONBLOCK
	IN_ONESHOT = zz.IN_ONESHOT
	IN_ONLYDIR = zz.IN_ONLYDIR
	IN_OPEN = zz.IN_OPEN
	IN_Q_OVERFLOW = zz.IN_Q_OVERFLOW
	IN_UNMOUNT = zz.IN_UNMOUNT
	IPPROTO_AH = zz.IPPROTO_AH
	IPPROTO_COMP = zz.IPPROTO_COMP
	IPPROTO_DCCP = zz.IPPROTO_DCCP
	IPPROTO_DSTOPTS = zz.IPPROTO_DSTOPTS
	IPPROTO_EGP = zz.IPPROTO_EGP
	IPPROTO_ENCAP = zz.IPPROTO_ENCAP
	IPPROTO_ESP = zz.IPPROTO_ESP
	IPPROTO_FRAGMENT = zz.IPPROTO_FRAGMENT
	IPPROTO_GRE = zz.IPPROTO_GRE
	IPPROTO_HOPOPTS = zz.IPPROTO_HOPOPTS
	IPPROTO_ICMP = zz.IPPROTO_ICMP
	IPPROTO_ICMPV6 = zz.IPPROTO_ICMPV6
	IPPROTO_IDP = zz.IPPROTO_IDP
	IPPROTO_IGMP = zz.IPPROTO_IGMP
	IPPROTO_IP = zz.IPPROTO_IP
	IPPROTO_IPIP = zz.IPPROTO_IPIP
	IPPROTO_IPV6 = zz.IPPROTO_IPV6
	IPPROTO_MTP = zz.IPPROTO_MTP
	IPPROTO_NONE = zz.IPPROTO_NONE
	IPPROTO_PIM = zz.IPPROTO_PIM
	IPPROTO_PUP = zz.IPPROTO_PUP
	IPPROTO_RAW = zz.IPPROTO_RAW
	IPPROTO_ROUTING = zz.IPPROTO_ROUTING
	IPPROTO_RSVP = zz.IPPROTO_RSVP
	IPPROTO_SCTP = zz.IPPROTO_SCTP
	IPPROTO_TCP = zz.IPPROTO_TCP
	IPPROTO_TP = zz.IPPROTO_TP
	IPPROTO_UDP = zz.IPPROTO_UDP
	IPPROTO_UDPLITE = zz.IPPROTO_UDPLITE
	IPV6_2292DSTOPTS = zz.IPV6_2292DSTOPTS
	IPV6_2292HOPLIMIT = zz.IPV6_2292HOPLIMIT
	IPV6_2292HOPOPTS = zz.IPV6_2292HOPOPTS
	IPV6_2292PKTINFO = zz.IPV6_2292PKTINFO
	IPV6_2292PKTOPTIONS = zz.IPV6_2292PKTOPTIONS
	IPV6_2292RTHDR = zz.IPV6_2292RTHDR
	IPV6_ADDRFORM = zz.IPV6_ADDRFORM
	IPV6_ADD_MEMBERSHIP = zz.IPV6_ADD_MEMBERSHIP
	IPV6_AUTHHDR = zz.IPV6_AUTHHDR
	IPV6_CHECKSUM = zz.IPV6_CHECKSUM
	IPV6_DROP_MEMBERSHIP = zz.IPV6_DROP_MEMBERSHIP
	IPV6_DSTOPTS = zz.IPV6_DSTOPTS
	IPV6_HOPLIMIT = zz.IPV6_HOPLIMIT
	IPV6_HOPOPTS = zz.IPV6_HOPOPTS
	IPV6_IPSEC_POLICY = zz.IPV6_IPSEC_POLICY
	IPV6_JOIN_ANYCAST = zz.IPV6_JOIN_ANYCAST
	IPV6_JOIN_GROUP = zz.IPV6_JOIN_GROUP
	IPV6_LEAVE_ANYCAST = zz.IPV6_LEAVE_ANYCAST
	IPV6_LEAVE_GROUP = zz.IPV6_LEAVE_GROUP
	IPV6_MTU = zz.IPV6_MTU
	IPV6_MTU_DISCOVER = zz.IPV6_MTU_DISCOVER
	IPV6_MULTICAST_HOPS = zz.IPV6_MULTICAST_HOPS
	IPV6_MULTICAST_IF = zz.IPV6_MULTICAST_IF
	IPV6_MULTICAST_LOOP = zz.IPV6_MULTICAST_LOOP
	IPV6_NEXTHOP = zz.IPV6_NEXTHOP
	IPV6_PKTINFO = zz.IPV6_PKTINFO
	IPV6_PMTUDISC_DO = zz.IPV6_PMTUDISC_DO
	IPV6_PMTUDISC_DONT = zz.IPV6_PMTUDISC_DONT
	IPV6_PMTUDISC_PROBE = zz.IPV6_PMTUDISC_PROBE
	IPV6_PMTUDISC_WANT = zz.IPV6_PMTUDISC_WANT
	IPV6_RECVDSTOPTS = zz.IPV6_RECVDSTOPTS
	IPV6_RECVERR = zz.IPV6_RECVERR
	IPV6_RECVHOPLIMIT = zz.IPV6_RECVHOPLIMIT
	IPV6_RECVHOPOPTS = zz.IPV6_RECVHOPOPTS
	IPV6_RECVPKTINFO = zz.IPV6_RECVPKTINFO
	IPV6_RECVRTHDR = zz.IPV6_RECVRTHDR
	IPV6_RECVTCLASS = zz.IPV6_RECVTCLASS
	IPV6_ROUTER_ALERT = zz.IPV6_ROUTER_ALERT
	IPV6_RTHDR = zz.IPV6_RTHDR
	IPV6_RTHDRDSTOPTS = zz.IPV6_RTHDRDSTOPTS
	IPV6_RTHDR_LOOSE = zz.IPV6_RTHDR_LOOSE
	IPV6_RTHDR_STRICT = zz.IPV6_RTHDR_STRICT
	IPV6_RTHDR_TYPE_0 = zz.IPV6_RTHDR_TYPE_0
	IPV6_RXDSTOPTS = zz.IPV6_RXDSTOPTS
	IPV6_RXHOPOPTS = zz.IPV6_RXHOPOPTS
	IPV6_TCLASS = zz.IPV6_TCLASS
	IPV6_UNICAST_HOPS = zz.IPV6_UNICAST_HOPS
	IPV6_V6ONLY = zz.IPV6_V6ONLY
	IPV6_XFRM_POLICY = zz.IPV6_XFRM_POLICY
	IP_ADD_MEMBERSHIP = zz.IP_ADD_MEMBERSHIP
	IP_ADD_SOURCE_MEMBERSHIP = zz.IP_ADD_SOURCE_MEMBERSHIP
	IP_BLOCK_SOURCE = zz.IP_BLOCK_SOURCE
	IP_DEFAULT_MULTICAST_LOOP = zz.IP_DEFAULT_MULTICAST_LOOP
	IP_DEFAULT_MULTICAST_TTL = zz.IP_DEFAULT_MULTICAST_TTL
	IP_DF = zz.IP_DF
	IP_DROP_MEMBERSHIP = zz.IP_DROP_MEMBERSHIP
	IP_DROP_SOURCE_MEMBERSHIP = zz.IP_DROP_SOURCE_MEMBERSHIP
	IP_FREEBIND = zz.IP_FREEBIND
	IP_HDRINCL = zz.IP_HDRINCL
	IP_IPSEC_POLICY = zz.IP_IPSEC_POLICY
	IP_MAXPACKET = zz.IP_MAXPACKET
	IP_MAX_MEMBERSHIPS = zz.IP_MAX_MEMBERSHIPS
	IP_MF = zz.IP_MF
	IP_MINTTL = zz.IP_MINTTL
	IP_MSFILTER = zz.IP_MSFILTER
	IP_MSS = zz.IP_MSS
	IP_MTU = zz.IP_MTU
	IP_MTU_DISCOVER = zz.IP_MTU_DISCOVER
	IP_MULTICAST_IF = zz.IP_MULTICAST_IF
	IP_MULTICAST_LOOP = zz.IP_MULTICAST_LOOP
	IP_MULTICAST_TTL = zz.IP_MULTICAST_TTL
	IP_OFFMASK = zz.IP_OFFMASK
	IP_OPTIONS = zz.IP_OPTIONS
	IP_ORIGDSTADDR = zz.IP_ORIGDSTADDR
	IP_PASSSEC = zz.IP_PASSSEC
	IP_PKTINFO = zz.IP_PKTINFO
	IP_PKTOPTIONS = zz.IP_PKTOPTIONS
	IP_PMTUDISC = zz.IP_PMTUDISC
	IP_PMTUDISC_DO = zz.IP_PMTUDISC_DO
	IP_PMTUDISC_DONT = zz.IP_PMTUDISC_DONT
	IP_PMTUDISC_PROBE = zz.IP_PMTUDISC_PROBE
	IP_PMTUDISC_WANT = zz.IP_PMTUDISC_WANT
	IP_RECVERR = zz.IP_RECVERR
	IP_RECVOPTS = zz.IP_RECVOPTS
	IP_RECVORIGDSTADDR = zz.IP_RECVORIGDSTADDR
	IP_RECVRETOPTS = zz.IP_RECVRETOPTS
	IP_RECVTOS = zz.IP_RECVTOS
	IP_RECVTTL = zz.IP_RECVTTL
	IP_RETOPTS = zz.IP_RETOPTS
	IP_RF = zz.IP_RF
	IP_ROUTER_ALERT = zz.IP_ROUTER_ALERT
	IP_TOS = zz.IP_TOS
	IP_TRANSPARENT = zz.IP_TRANSPARENT
	IP_TTL = zz.IP_TTL
	IP_UNBLOCK_SOURCE = zz.IP_UNBLOCK_SOURCE
	IP_XFRM_POLICY = zz.IP_XFRM_POLICY
	ISIG = zz.ISIG
	ISTRIP = zz.ISTRIP
	IUCLC = zz.IUCLC
	IUTF8 = zz.IUTF8
	IXANY = zz.IXANY
	IXOFF = zz.IXOFF
	IXON = zz.IXON
	ImplementsGetwd = zz.ImplementsGetwd
	LINUX_REBOOT_CMD_CAD_OFF = zz.LINUX_REBOOT_CMD_CAD_OFF
	LINUX_REBOOT_CMD_CAD_ON = zz.LINUX_REBOOT_CMD_CAD_ON
	LINUX_REBOOT_CMD_HALT = zz.LINUX_REBOOT_CMD_HALT
	LINUX_REBOOT_CMD_KEXEC = zz.LINUX_REBOOT_CMD_KEXEC
	LINUX_REBOOT_CMD_POWER_OFF = zz.LINUX_REBOOT_CMD_POWER_OFF
	LINUX_REBOOT_CMD_RESTART = zz.LINUX_REBOOT_CMD_RESTART
	LINUX_REBOOT_CMD_RESTART2 = zz.LINUX_REBOOT_CMD_RESTART2
	LINUX_REBOOT_CMD_SW_SUSPEND = zz.LINUX_REBOOT_CMD_SW_SUSPEND
	LINUX_REBOOT_MAGIC1 = zz.LINUX_REBOOT_MAGIC1
	LINUX_REBOOT_MAGIC2 = zz.LINUX_REBOOT_MAGIC2
	LOCK_EX = zz.LOCK_EX
	LOCK_NB = zz.LOCK_NB
	LOCK_SH = zz.LOCK_SH
	LOCK_UN = zz.LOCK_UN
	MADV_DOFORK = zz.MADV_DOFORK
	MADV_DONTFORK = zz.MADV_DONTFORK
	MADV_DONTNEED = zz.MADV_DONTNEED
	MADV_HUGEPAGE = zz.MADV_HUGEPAGE
	MADV_HWPOISON = zz.MADV_HWPOISON
	MADV_MERGEABLE = zz.MADV_MERGEABLE
	MADV_NOHUGEPAGE = zz.MADV_NOHUGEPAGE
	MADV_NORMAL = zz.MADV_NORMAL
	MADV_RANDOM = zz.MADV_RANDOM
	MADV_REMOVE = zz.MADV_REMOVE
	MADV_SEQUENTIAL = zz.MADV_SEQUENTIAL
	MADV_UNMERGEABLE = zz.MADV_UNMERGEABLE
	MADV_WILLNEED = zz.MADV_WILLNEED
	MAP_32BIT = zz.MAP_32BIT
	MAP_ANON = zz.MAP_ANON
	MAP_ANONYMOUS = zz.MAP_ANONYMOUS
	MAP_DENYWRITE = zz.MAP_DENYWRITE
	MAP_EXECUTABLE = zz.MAP_EXECUTABLE
	MAP_FILE = zz.MAP_FILE
	MAP_FIXED = zz.MAP_FIXED
	MAP_GROWSDOWN = zz.MAP_GROWSDOWN
	MAP_HUGETLB = zz.MAP_HUGETLB
	MAP_LOCKED = zz.MAP_LOCKED
	MAP_NONBLOCK = zz.MAP_NONBLOCK
	MAP_NORESERVE = zz.MAP_NORESERVE
	MAP_POPULATE = zz.MAP_POPULATE
	MAP_PRIVATE = zz.MAP_PRIVATE
	MAP_SHARED = zz.MAP_SHARED
	MAP_STACK = zz.MAP_STACK
	MAP_TYPE = zz.MAP_TYPE
	MCL_CURRENT = zz.MCL_CURRENT
	MCL_FUTURE = zz.MCL_FUTURE
	MNT_DETACH = zz.MNT_DETACH
	MNT_EXPIRE = zz.MNT_EXPIRE
	MNT_FORCE = zz.MNT_FORCE
	MSG_CMSG_CLOEXEC = zz.MSG_CMSG_CLOEXEC
	MSG_CONFIRM = zz.MSG_CONFIRM
	MSG_CTRUNC = zz.MSG_CTRUNC
	MSG_DONTROUTE = zz.MSG_DONTROUTE
	MSG_DONTWAIT = zz.MSG_DONTWAIT
	MSG_EOR = zz.MSG_EOR
	MSG_ERRQUEUE = zz.MSG_ERRQUEUE
	MSG_FASTOPEN = zz.MSG_FASTOPEN
	MSG_FIN = zz.MSG_FIN
	MSG_MORE = zz.MSG_MORE
	MSG_NOSIGNAL = zz.MSG_NOSIGNAL
	MSG_OOB = zz.MSG_OOB
	MSG_PEEK = zz.MSG_PEEK
	MSG_PROXY = zz.MSG_PROXY
	MSG_RST = zz.MSG_RST
	MSG_SYN = zz.MSG_SYN
	MSG_TRUNC = zz.MSG_TRUNC
	MSG_TRYHARD = zz.MSG_TRYHARD
	MSG_WAITALL = zz.MSG_WAITALL
	MSG_WAITFORONE = zz.MSG_WAITFORONE
	MS_ACTIVE = zz.MS_ACTIVE
	MS_ASYNC = zz.MS_ASYNC
	MS_BIND = zz.MS_BIND
	MS_DIRSYNC = zz.MS_DIRSYNC
	MS_INVALIDATE = zz.MS_INVALIDATE
	MS_I_VERSION = zz.MS_I_VERSION
	MS_KERNMOUNT = zz.MS_KERNMOUNT
	MS_MANDLOCK = zz.MS_MANDLOCK
	MS_MGC_MSK = zz.MS_MGC_MSK
	MS_MGC_VAL = zz.MS_MGC_VAL
	MS_MOVE = zz.MS_MOVE
	MS_NOATIME = zz.MS_NOATIME
	MS_NODEV = zz.MS_NODEV
	MS_NODIRATIME = zz.MS_NODIRATIME
	MS_NOEXEC = zz.MS_NOEXEC
	MS_NOSUID = zz.MS_NOSUID
	MS_NOUSER = zz.MS_NOUSER
	MS_POSIXACL = zz.MS_POSIXACL
	MS_PRIVATE = zz.MS_PRIVATE
	MS_RDONLY = zz.MS_RDONLY
	MS_REC = zz.MS_REC
	MS_RELATIME = zz.MS_RELATIME
	MS_REMOUNT = zz.MS_REMOUNT
	MS_RMT_MASK = zz.MS_RMT_MASK
	MS_SHARED = zz.MS_SHARED
	MS_SILENT = zz.MS_SILENT
	MS_SLAVE = zz.MS_SLAVE
	MS_STRICTATIME = zz.MS_STRICTATIME
	MS_SYNC = zz.MS_SYNC
	MS_SYNCHRONOUS = zz.MS_SYNCHRONOUS
	MS_UNBINDABLE = zz.MS_UNBINDABLE
	NAME_MAX = zz.NAME_MAX
	NETLINK_ADD_MEMBERSHIP = zz.NETLINK_ADD_MEMBERSHIP
	NETLINK_AUDIT = zz.NETLINK_AUDIT
	NETLINK_BROADCAST_ERROR = zz.NETLINK_BROADCAST_ERROR
	NETLINK_CONNECTOR = zz.NETLINK_CONNECTOR
	NETLINK_DNRTMSG = zz.NETLINK_DNRTMSG
	NETLINK_DROP_MEMBERSHIP = zz.NETLINK_DROP_MEMBERSHIP
	NETLINK_ECRYPTFS = zz.NETLINK_ECRYPTFS
	NETLINK_FIB_LOOKUP = zz.NETLINK_FIB_LOOKUP
	NETLINK_FIREWALL = zz.NETLINK_FIREWALL
	NETLINK_GENERIC = zz.NETLINK_GENERIC
	NETLINK_INET_DIAG = zz.NETLINK_INET_DIAG
	NETLINK_IP6_FW = zz.NETLINK_IP6_FW
	NETLINK_ISCSI = zz.NETLINK_ISCSI
	NETLINK_KOBJECT_UEVENT = zz.NETLINK_KOBJECT_UEVENT
	NETLINK_NETFILTER = zz.NETLINK_NETFILTER
	NETLINK_NFLOG = zz.NETLINK_NFLOG
	NETLINK_NO_ENOBUFS = zz.NETLINK_NO_ENOBUFS
	NETLINK_PKTINFO = zz.NETLINK_PKTINFO
	NETLINK_ROUTE = zz.NETLINK_ROUTE
	NETLINK_SCSITRANSPORT = zz.NETLINK_SCSITRANSPORT
	NETLINK_SELINUX = zz.NETLINK_SELINUX
	NETLINK_UNUSED = zz.NETLINK_UNUSED
	NETLINK_USERSOCK = zz.NETLINK_USERSOCK
	NETLINK_XFRM = zz.NETLINK_XFRM
	NLA_ALIGNTO = zz.NLA_ALIGNTO
	NLA_F_NESTED = zz.NLA_F_NESTED
	NLA_F_NET_BYTEORDER = zz.NLA_F_NET_BYTEORDER
	NLA_HDRLEN = zz.NLA_HDRLEN
	NLMSG_ALIGNTO = zz.NLMSG_ALIGNTO
	NLMSG_DONE = zz.NLMSG_DONE
	NLMSG_ERROR = zz.NLMSG_ERROR
	NLMSG_HDRLEN = zz.NLMSG_HDRLEN
	NLMSG_MIN_TYPE = zz.NLMSG_MIN_TYPE
	NLMSG_NOOP = zz.NLMSG_NOOP
	NLMSG_OVERRUN = zz.NLMSG_OVERRUN
	NLM_F_ACK = zz.NLM_F_ACK
	NLM_F_APPEND = zz.NLM_F_APPEND
	NLM_F_ATOMIC = zz.NLM_F_ATOMIC
	NLM_F_CREATE = zz.NLM_F_CREATE
	NLM_F_DUMP = zz.NLM_F_DUMP
	NLM_F_ECHO = zz.NLM_F_ECHO
	NLM_F_EXCL = zz.NLM_F_EXCL
	NLM_F_MATCH = zz.NLM_F_MATCH
	NLM_F_MULTI = zz.NLM_F_MULTI
	NLM_F_REPLACE = zz.NLM_F_REPLACE
	NLM_F_REQUEST = zz.NLM_F_REQUEST
	NLM_F_ROOT = zz.NLM_F_ROOT
	NOFLSH = zz.NOFLSH
	OCRNL = zz.OCRNL
	OFDEL = zz.OFDEL
	OFILL = zz.OFILL
	OLCUC = zz.OLCUC
	ONLCR = zz.ONLCR
	ONLRET = zz.ONLRET
	ONOCR = zz.ONOCR
	OPOST = zz.OPOST
	O_ACCMODE = zz.O_ACCMODE
	O_APPEND = zz.O_APPEND
	O_ASYNC = zz.O_ASYNC
	O_CLOEXEC = zz.O_CLOEXEC
	O_CREAT = zz.O_CREAT
	O_DIRECT = zz.O_DIRECT
	O_DIRECTORY = zz.O_DIRECTORY
	O_DSYNC = zz.O_DSYNC
	O_EXCL = zz.O_EXCL
	O_FSYNC = zz.O_FSYNC
	O_LARGEFILE = zz.O_LARGEFILE
	O_NDELAY = zz.O_NDELAY
	O_NOATIME = zz.O_NOATIME
	O_NOCTTY = zz.O_NOCTTY
	O_NOFOLLOW = zz.O_NOFOLLOW
	O_NONBLOCK = zz.O_NONBLOCK
	O_RDONLY = zz.O_RDONLY
	O_RDWR = zz.O_RDWR
	O_RSYNC = zz.O_RSYNC
	O_SYNC = zz.O_SYNC
	O_TRUNC = zz.O_TRUNC
	O_WRONLY = zz.O_WRONLY
	PACKET_ADD_MEMBERSHIP = zz.PACKET_ADD_MEMBERSHIP
	PACKET_BROADCAST = zz.PACKET_BROADCAST
	PACKET_DROP_MEMBERSHIP = zz.PACKET_DROP_MEMBERSHIP
	PACKET_FASTROUTE = zz.PACKET_FASTROUTE
	PACKET_HOST = zz.PACKET_HOST
	PACKET_LOOPBACK = zz.PACKET_LOOPBACK
	PACKET_MR_ALLMULTI = zz.PACKET_MR_ALLMULTI
	PACKET_MR_MULTICAST = zz.PACKET_MR_MULTICAST
	PACKET_MR_PROMISC = zz.PACKET_MR_PROMISC
	PACKET_MULTICAST = zz.PACKET_MULTICAST
	PACKET_OTHERHOST = zz.PACKET_OTHERHOST
	PACKET_OUTGOING = zz.PACKET_OUTGOING
	PACKET_RECV_OUTPUT = zz.PACKET_RECV_OUTPUT
	PACKET_RX_RING = zz.PACKET_RX_RING
	PACKET_STATISTICS = zz.PACKET_STATISTICS
	PARENB = zz.PARENB
	PARMRK = zz.PARMRK
	PARODD = zz.PARODD
	PENDIN = zz.PENDIN
	PRIO_PGRP = zz.PRIO_PGRP
	PRIO_PROCESS = zz.PRIO_PROCESS
	PRIO_USER = zz.PRIO_USER
	PROT_EXEC = zz.PROT_EXEC
	PROT_GROWSDOWN = zz.PROT_GROWSDOWN
	PROT_GROWSUP = zz.PROT_GROWSUP
	PROT_NONE = zz.PROT_NONE
	PROT_READ = zz.PROT_READ
	PROT_WRITE = zz.PROT_WRITE
	PR_CAPBSET_DROP = zz.PR_CAPBSET_DROP
	PR_CAPBSET_READ = zz.PR_CAPBSET_READ
	PR_ENDIAN_BIG = zz.PR_ENDIAN_BIG
	PR_ENDIAN_LITTLE = zz.PR_ENDIAN_LITTLE
	PR_ENDIAN_PPC_LITTLE = zz.PR_ENDIAN_PPC_LITTLE
	PR_FPEMU_NOPRINT = zz.PR_FPEMU_NOPRINT
	PR_FPEMU_SIGFPE = zz.PR_FPEMU_SIGFPE
	PR_FP_EXC_ASYNC = zz.PR_FP_EXC_ASYNC
	PR_FP_EXC_DISABLED = zz.PR_FP_EXC_DISABLED
	PR_FP_EXC_DIV = zz.PR_FP_EXC_DIV
	PR_FP_EXC_INV = zz.PR_FP_EXC_INV
	PR_FP_EXC_NONRECOV = zz.PR_FP_EXC_NONRECOV
	PR_FP_EXC_OVF = zz.PR_FP_EXC_OVF
	PR_FP_EXC_PRECISE = zz.PR_FP_EXC_PRECISE
	PR_FP_EXC_RES = zz.PR_FP_EXC_RES
	PR_FP_EXC_SW_ENABLE = zz.PR_FP_EXC_SW_ENABLE
	PR_FP_EXC_UND = zz.PR_FP_EXC_UND
	PR_GET_DUMPABLE = zz.PR_GET_DUMPABLE
	PR_GET_ENDIAN = zz.PR_GET_ENDIAN
	PR_GET_FPEMU = zz.PR_GET_FPEMU
	PR_GET_FPEXC = zz.PR_GET_FPEXC
	PR_GET_KEEPCAPS = zz.PR_GET_KEEPCAPS
	PR_GET_NAME = zz.PR_GET_NAME
	PR_GET_PDEATHSIG = zz.PR_GET_PDEATHSIG
	PR_GET_SECCOMP = zz.PR_GET_SECCOMP
	PR_GET_SECUREBITS = zz.PR_GET_SECUREBITS
	PR_GET_TIMERSLACK = zz.PR_GET_TIMERSLACK
	PR_GET_TIMING = zz.PR_GET_TIMING
	PR_GET_TSC = zz.PR_GET_TSC
	PR_GET_UNALIGN = zz.PR_GET_UNALIGN
	PR_MCE_KILL = zz.PR_MCE_KILL
	PR_MCE_KILL_CLEAR = zz.PR_MCE_KILL_CLEAR
	PR_MCE_KILL_DEFAULT = zz.PR_MCE_KILL_DEFAULT
	PR_MCE_KILL_EARLY = zz.PR_MCE_KILL_EARLY
	PR_MCE_KILL_GET = zz.PR_MCE_KILL_GET
	PR_MCE_KILL_LATE = zz.PR_MCE_KILL_LATE
	PR_MCE_KILL_SET = zz.PR_MCE_KILL_SET
	PR_SET_DUMPABLE = zz.PR_SET_DUMPABLE
	PR_SET_ENDIAN = zz.PR_SET_ENDIAN
	PR_SET_FPEMU = zz.PR_SET_FPEMU
	PR_SET_FPEXC = zz.PR_SET_FPEXC
	PR_SET_KEEPCAPS = zz.PR_SET_KEEPCAPS
	PR_SET_NAME = zz.PR_SET_NAME
	PR_SET_PDEATHSIG = zz.PR_SET_PDEATHSIG
	PR_SET_PTRACER = zz.PR_SET_PTRACER
	PR_SET_SECCOMP = zz.PR_SET_SECCOMP
	PR_SET_SECUREBITS = zz.PR_SET_SECUREBITS
	PR_SET_TIMERSLACK = zz.PR_SET_TIMERSLACK
	PR_SET_TIMING = zz.PR_SET_TIMING
	PR_SET_TSC = zz.PR_SET_TSC
	PR_SET_UNALIGN = zz.PR_SET_UNALIGN
	PR_TASK_PERF_EVENTS_DISABLE = zz.PR_TASK_PERF_EVENTS_DISABLE
	PR_TASK_PERF_EVENTS_ENABLE = zz.PR_TASK_PERF_EVENTS_ENABLE
	PR_TIMING_STATISTICAL = zz.PR_TIMING_STATISTICAL
	PR_TIMING_TIMESTAMP = zz.PR_TIMING_TIMESTAMP
	PR_TSC_ENABLE = zz.PR_TSC_ENABLE
	PR_TSC_SIGSEGV = zz.PR_TSC_SIGSEGV
	PR_UNALIGN_NOPRINT = zz.PR_UNALIGN_NOPRINT
	PR_UNALIGN_SIGBUS = zz.PR_UNALIGN_SIGBUS
	PTRACE_ARCH_PRCTL = zz.PTRACE_ARCH_PRCTL
	PTRACE_ATTACH = zz.PTRACE_ATTACH
	PTRACE_CONT = zz.PTRACE_CONT
	PTRACE_DETACH = zz.PTRACE_DETACH
	PTRACE_EVENT_CLONE = zz.PTRACE_EVENT_CLONE
	PTRACE_EVENT_EXEC = zz.PTRACE_EVENT_EXEC
	PTRACE_EVENT_EXIT = zz.PTRACE_EVENT_EXIT
	PTRACE_EVENT_FORK = zz.PTRACE_EVENT_FORK
	PTRACE_EVENT_VFORK = zz.PTRACE_EVENT_VFORK
	PTRACE_EVENT_VFORK_DONE = zz.PTRACE_EVENT_VFORK_DONE
	PTRACE_GETEVENTMSG = zz.PTRACE_GETEVENTMSG
	PTRACE_GETFPREGS = zz.PTRACE_GETFPREGS
	PTRACE_GETFPXREGS = zz.PTRACE_GETFPXREGS
	PTRACE_GETREGS = zz.PTRACE_GETREGS
	PTRACE_GETREGSET = zz.PTRACE_GETREGSET
	PTRACE_GETSIGINFO = zz.PTRACE_GETSIGINFO
	PTRACE_GET_THREAD_AREA = zz.PTRACE_GET_THREAD_AREA
	PTRACE_KILL = zz.PTRACE_KILL
	PTRACE_OLDSETOPTIONS = zz.PTRACE_OLDSETOPTIONS
	PTRACE_O_MASK = zz.PTRACE_O_MASK
	PTRACE_O_TRACECLONE = zz.PTRACE_O_TRACECLONE
	PTRACE_O_TRACEEXEC = zz.PTRACE_O_TRACEEXEC
	PTRACE_O_TRACEEXIT = zz.PTRACE_O_TRACEEXIT
	PTRACE_O_TRACEFORK = zz.PTRACE_O_TRACEFORK
	PTRACE_O_TRACESYSGOOD = zz.PTRACE_O_TRACESYSGOOD
	PTRACE_O_TRACEVFORK = zz.PTRACE_O_TRACEVFORK
	PTRACE_O_TRACEVFORKDONE = zz.PTRACE_O_TRACEVFORKDONE
	PTRACE_PEEKDATA = zz.PTRACE_PEEKDATA
	PTRACE_PEEKTEXT = zz.PTRACE_PEEKTEXT
	PTRACE_PEEKUSR = zz.PTRACE_PEEKUSR
	PTRACE_POKEDATA = zz.PTRACE_POKEDATA
	PTRACE_POKETEXT = zz.PTRACE_POKETEXT
	PTRACE_POKEUSR = zz.PTRACE_POKEUSR
	PTRACE_SETFPREGS = zz.PTRACE_SETFPREGS
	PTRACE_SETFPXREGS = zz.PTRACE_SETFPXREGS
	PTRACE_SETOPTIONS = zz.PTRACE_SETOPTIONS
	PTRACE_SETREGS = zz.PTRACE_SETREGS
	PTRACE_SETREGSET = zz.PTRACE_SETREGSET
	PTRACE_SETSIGINFO = zz.PTRACE_SETSIGINFO
	PTRACE_SET_THREAD_AREA = zz.PTRACE_SET_THREAD_AREA
	PTRACE_SINGLEBLOCK = zz.PTRACE_SINGLEBLOCK
	PTRACE_SINGLESTEP = zz.PTRACE_SINGLESTEP
	PTRACE_SYSCALL = zz.PTRACE_SYSCALL
	PTRACE_SYSEMU = zz.PTRACE_SYSEMU
	PTRACE_SYSEMU_SINGLESTEP = zz.PTRACE_SYSEMU_SINGLESTEP
	PTRACE_TRACEME = zz.PTRACE_TRACEME
	PathMax = zz.PathMax
	RLIMIT_AS = zz.RLIMIT_AS
	RLIMIT_CORE = zz.RLIMIT_CORE
	RLIMIT_CPU = zz.RLIMIT_CPU
	RLIMIT_DATA = zz.RLIMIT_DATA
	RLIMIT_FSIZE = zz.RLIMIT_FSIZE
	RLIMIT_NOFILE = zz.RLIMIT_NOFILE
	RLIMIT_STACK = zz.RLIMIT_STACK
	RLIM_INFINITY = zz.RLIM_INFINITY
	RTAX_ADVMSS = zz.RTAX_ADVMSS
	RTAX_CWND = zz.RTAX_CWND
	RTAX_FEATURES = zz.RTAX_FEATURES
	RTAX_FEATURE_ALLFRAG = zz.RTAX_FEATURE_ALLFRAG
	RTAX_FEATURE_ECN = zz.RTAX_FEATURE_ECN
	RTAX_FEATURE_SACK = zz.RTAX_FEATURE_SACK
	RTAX_FEATURE_TIMESTAMP = zz.RTAX_FEATURE_TIMESTAMP
	RTAX_HOPLIMIT = zz.RTAX_HOPLIMIT
	RTAX_INITCWND = zz.RTAX_INITCWND
	RTAX_INITRWND = zz.RTAX_INITRWND
	RTAX_LOCK = zz.RTAX_LOCK
	RTAX_MAX = zz.RTAX_MAX
	RTAX_MTU = zz.RTAX_MTU
	RTAX_REORDERING = zz.RTAX_REORDERING
	RTAX_RTO_MIN = zz.RTAX_RTO_MIN
	RTAX_RTT = zz.RTAX_RTT
	RTAX_RTTVAR = zz.RTAX_RTTVAR
	RTAX_SSTHRESH = zz.RTAX_SSTHRESH
	RTAX_UNSPEC = zz.RTAX_UNSPEC
	RTAX_WINDOW = zz.RTAX_WINDOW
	RTA_ALIGNTO = zz.RTA_ALIGNTO
	RTA_CACHEINFO = zz.RTA_CACHEINFO
	RTA_DST = zz.RTA_DST
	RTA_FLOW = zz.RTA_FLOW
	RTA_GATEWAY = zz.RTA_GATEWAY
	RTA_IIF = zz.RTA_IIF
	RTA_MAX = zz.RTA_MAX
	RTA_METRICS = zz.RTA_METRICS
	RTA_MULTIPATH = zz.RTA_MULTIPATH
	RTA_OIF = zz.RTA_OIF
	RTA_PREFSRC = zz.RTA_PREFSRC
	RTA_PRIORITY = zz.RTA_PRIORITY
	RTA_SRC = zz.RTA_SRC
	RTA_TABLE = zz.RTA_TABLE
	RTA_UNSPEC = zz.RTA_UNSPEC
	RTCF_DIRECTSRC = zz.RTCF_DIRECTSRC
	RTCF_DOREDIRECT = zz.RTCF_DOREDIRECT
	RTCF_LOG = zz.RTCF_LOG
	RTCF_MASQ = zz.RTCF_MASQ
	RTCF_NAT = zz.RTCF_NAT
	RTCF_VALVE = zz.RTCF_VALVE
	RTF_ADDRCLASSMASK = zz.RTF_ADDRCLASSMASK
	RTF_ADDRCONF = zz.RTF_ADDRCONF
	RTF_ALLONLINK = zz.RTF_ALLONLINK
	RTF_BROADCAST = zz.RTF_BROADCAST
	RTF_CACHE = zz.RTF_CACHE
	RTF_DEFAULT = zz.RTF_DEFAULT
	RTF_DYNAMIC = zz.RTF_DYNAMIC
	RTF_FLOW = zz.RTF_FLOW
	RTF_GATEWAY = zz.RTF_GATEWAY
	RTF_HOST = zz.RTF_HOST
	RTF_INTERFACE = zz.RTF_INTERFACE
	RTF_IRTT = zz.RTF_IRTT
	RTF_LINKRT = zz.RTF_LINKRT
	RTF_LOCAL = zz.RTF_LOCAL
	RTF_MODIFIED = zz.RTF_MODIFIED
	RTF_MSS = zz.RTF_MSS
	RTF_MTU = zz.RTF_MTU
	RTF_MULTICAST = zz.RTF_MULTICAST
	RTF_NAT = zz.RTF_NAT
	RTF_NOFORWARD = zz.RTF_NOFORWARD
	RTF_NONEXTHOP = zz.RTF_NONEXTHOP
	RTF_NOPMTUDISC = zz.RTF_NOPMTUDISC
	RTF_POLICY = zz.RTF_POLICY
	RTF_REINSTATE = zz.RTF_REINSTATE
	RTF_REJECT = zz.RTF_REJECT
	RTF_STATIC = zz.RTF_STATIC
	RTF_THROW = zz.RTF_THROW
	RTF_UP = zz.RTF_UP
	RTF_WINDOW = zz.RTF_WINDOW
	RTF_XRESOLVE = zz.RTF_XRESOLVE
	RTM_BASE = zz.RTM_BASE
	RTM_DELACTION = zz.RTM_DELACTION
	RTM_DELADDR = zz.RTM_DELADDR
	RTM_DELADDRLABEL = zz.RTM_DELADDRLABEL
	RTM_DELLINK = zz.RTM_DELLINK
	RTM_DELNEIGH = zz.RTM_DELNEIGH
	RTM_DELQDISC = zz.RTM_DELQDISC
	RTM_DELROUTE = zz.RTM_DELROUTE
	RTM_DELRULE = zz.RTM_DELRULE
	RTM_DELTCLASS = zz.RTM_DELTCLASS
	RTM_DELTFILTER = zz.RTM_DELTFILTER
	RTM_F_CLONED = zz.RTM_F_CLONED
	RTM_F_EQUALIZE = zz.RTM_F_EQUALIZE
	RTM_F_NOTIFY = zz.RTM_F_NOTIFY
	RTM_F_PREFIX = zz.RTM_F_PREFIX
	RTM_GETACTION = zz.RTM_GETACTION
	RTM_GETADDR = zz.RTM_GETADDR
	RTM_GETADDRLABEL = zz.RTM_GETADDRLABEL
	RTM_GETANYCAST = zz.RTM_GETANYCAST
	RTM_GETDCB = zz.RTM_GETDCB
	RTM_GETLINK = zz.RTM_GETLINK
	RTM_GETMULTICAST = zz.RTM_GETMULTICAST
	RTM_GETNEIGH = zz.RTM_GETNEIGH
	RTM_GETNEIGHTBL = zz.RTM_GETNEIGHTBL
	RTM_GETQDISC = zz.RTM_GETQDISC
	RTM_GETROUTE = zz.RTM_GETROUTE
	RTM_GETRULE = zz.RTM_GETRULE
	RTM_GETTCLASS = zz.RTM_GETTCLASS
	RTM_GETTFILTER = zz.RTM_GETTFILTER
	RTM_MAX = zz.RTM_MAX
	RTM_NEWACTION = zz.RTM_NEWACTION
	RTM_NEWADDR = zz.RTM_NEWADDR
	RTM_NEWADDRLABEL = zz.RTM_NEWADDRLABEL
	RTM_NEWLINK = zz.RTM_NEWLINK
	RTM_NEWNDUSEROPT = zz.RTM_NEWNDUSEROPT
	RTM_NEWNEIGH = zz.RTM_NEWNEIGH
	RTM_NEWNEIGHTBL = zz.RTM_NEWNEIGHTBL
	RTM_NEWPREFIX = zz.RTM_NEWPREFIX
	RTM_NEWQDISC = zz.RTM_NEWQDISC
	RTM_NEWROUTE = zz.RTM_NEWROUTE
	RTM_NEWRULE = zz.RTM_NEWRULE
	RTM_NEWTCLASS = zz.RTM_NEWTCLASS
	RTM_NEWTFILTER = zz.RTM_NEWTFILTER
	RTM_NR_FAMILIES = zz.RTM_NR_FAMILIES
	RTM_NR_MSGTYPES = zz.RTM_NR_MSGTYPES
	RTM_SETDCB = zz.RTM_SETDCB
	RTM_SETLINK = zz.RTM_SETLINK
	RTM_SETNEIGHTBL = zz.RTM_SETNEIGHTBL
	RTNH_ALIGNTO = zz.RTNH_ALIGNTO
	RTNH_F_DEAD = zz.RTNH_F_DEAD
	RTNH_F_ONLINK = zz.RTNH_F_ONLINK
	RTNH_F_PERVASIVE = zz.RTNH_F_PERVASIVE
	RTNLGRP_IPV4_IFADDR = zz.RTNLGRP_IPV4_IFADDR
	RTNLGRP_IPV4_MROUTE = zz.RTNLGRP_IPV4_MROUTE
	RTNLGRP_IPV4_ROUTE = zz.RTNLGRP_IPV4_ROUTE
	RTNLGRP_IPV4_RULE = zz.RTNLGRP_IPV4_RULE
	RTNLGRP_IPV6_IFADDR = zz.RTNLGRP_IPV6_IFADDR
	RTNLGRP_IPV6_IFINFO = zz.RTNLGRP_IPV6_IFINFO
	RTNLGRP_IPV6_MROUTE = zz.RTNLGRP_IPV6_MROUTE
	RTNLGRP_IPV6_PREFIX = zz.RTNLGRP_IPV6_PREFIX
	RTNLGRP_IPV6_ROUTE = zz.RTNLGRP_IPV6_ROUTE
	RTNLGRP_IPV6_RULE = zz.RTNLGRP_IPV6_RULE
	RTNLGRP_LINK = zz.RTNLGRP_LINK
	RTNLGRP_ND_USEROPT = zz.RTNLGRP_ND_USEROPT
	RTNLGRP_NEIGH = zz.RTNLGRP_NEIGH
	RTNLGRP_NONE = zz.RTNLGRP_NONE
	RTNLGRP_NOTIFY = zz.RTNLGRP_NOTIFY
	RTNLGRP_TC = zz.RTNLGRP_TC
	RTN_ANYCAST = zz.RTN_ANYCAST
	RTN_BLACKHOLE = zz.RTN_BLACKHOLE
	RTN_BROADCAST = zz.RTN_BROADCAST
	RTN_LOCAL = zz.RTN_LOCAL
	RTN_MAX = zz.RTN_MAX
	RTN_MULTICAST = zz.RTN_MULTICAST
	RTN_NAT = zz.RTN_NAT
	RTN_PROHIBIT = zz.RTN_PROHIBIT
	RTN_THROW = zz.RTN_THROW
	RTN_UNICAST = zz.RTN_UNICAST
	RTN_UNREACHABLE = zz.RTN_UNREACHABLE
	RTN_UNSPEC = zz.RTN_UNSPEC
	RTN_XRESOLVE = zz.RTN_XRESOLVE
	RTPROT_BIRD = zz.RTPROT_BIRD
	RTPROT_BOOT = zz.RTPROT_BOOT
	RTPROT_DHCP = zz.RTPROT_DHCP
	RTPROT_DNROUTED = zz.RTPROT_DNROUTED
	RTPROT_GATED = zz.RTPROT_GATED
	RTPROT_KERNEL = zz.RTPROT_KERNEL
	RTPROT_MRT = zz.RTPROT_MRT
	RTPROT_NTK = zz.RTPROT_NTK
	RTPROT_RA = zz.RTPROT_RA
	RTPROT_REDIRECT = zz.RTPROT_REDIRECT
	RTPROT_STATIC = zz.RTPROT_STATIC
	RTPROT_UNSPEC = zz.RTPROT_UNSPEC
	RTPROT_XORP = zz.RTPROT_XORP
	RTPROT_ZEBRA = zz.RTPROT_ZEBRA
	RT_CLASS_DEFAULT = zz.RT_CLASS_DEFAULT
	RT_CLASS_LOCAL = zz.RT_CLASS_LOCAL
	RT_CLASS_MAIN = zz.RT_CLASS_MAIN
	RT_CLASS_MAX = zz.RT_CLASS_MAX
	RT_CLASS_UNSPEC = zz.RT_CLASS_UNSPEC
	RT_SCOPE_HOST = zz.RT_SCOPE_HOST
	RT_SCOPE_LINK = zz.RT_SCOPE_LINK
	RT_SCOPE_NOWHERE = zz.RT_SCOPE_NOWHERE
	RT_SCOPE_SITE = zz.RT_SCOPE_SITE
	RT_SCOPE_UNIVERSE = zz.RT_SCOPE_UNIVERSE
	RT_TABLE_COMPAT = zz.RT_TABLE_COMPAT
	RT_TABLE_DEFAULT = zz.RT_TABLE_DEFAULT
	RT_TABLE_LOCAL = zz.RT_TABLE_LOCAL
	RT_TABLE_MAIN = zz.RT_TABLE_MAIN
	RT_TABLE_MAX = zz.RT_TABLE_MAX
	RT_TABLE_UNSPEC = zz.RT_TABLE_UNSPEC
	RUSAGE_CHILDREN = zz.RUSAGE_CHILDREN
	RUSAGE_SELF = zz.RUSAGE_SELF
	RUSAGE_THREAD = zz.RUSAGE_THREAD
	SCM_CREDENTIALS = zz.SCM_CREDENTIALS
	SCM_RIGHTS = zz.SCM_RIGHTS
	SCM_TIMESTAMP = zz.SCM_TIMESTAMP
	SCM_TIMESTAMPING = zz.SCM_TIMESTAMPING
	SCM_TIMESTAMPNS = zz.SCM_TIMESTAMPNS
	SHUT_RD = zz.SHUT_RD
	SHUT_RDWR = zz.SHUT_RDWR
	SHUT_WR = zz.SHUT_WR
	SIGABRT = zz.SIGABRT
	SIGALRM = zz.SIGALRM
	SIGBUS = zz.SIGBUS
	SIGCHLD = zz.SIGCHLD
	SIGCLD = zz.SIGCLD
	SIGCONT = zz.SIGCONT
	SIGFPE = zz.SIGFPE
	SIGHUP = zz.SIGHUP
	SIGILL = zz.SIGILL
	SIGINT = zz.SIGINT
	SIGIO = zz.SIGIO
	SIGIOT = zz.SIGIOT
	SIGKILL = zz.SIGKILL
	SIGPIPE = zz.SIGPIPE
	SIGPOLL = zz.SIGPOLL
	SIGPROF = zz.SIGPROF
	SIGPWR = zz.SIGPWR
	SIGQUIT = zz.SIGQUIT
	SIGSEGV = zz.SIGSEGV
	SIGSTKFLT = zz.SIGSTKFLT
	SIGSTOP = zz.SIGSTOP
	SIGSYS = zz.SIGSYS
	SIGTERM = zz.SIGTERM
	SIGTRAP = zz.SIGTRAP
	SIGTSTP = zz.SIGTSTP
	SIGTTIN = zz.SIGTTIN
	SIGTTOU = zz.SIGTTOU
	SIGUNUSED = zz.SIGUNUSED
	SIGURG = zz.SIGURG
	SIGUSR1 = zz.SIGUSR1
	SIGUSR2 = zz.SIGUSR2
	SIGVTALRM = zz.SIGVTALRM
	SIGWINCH = zz.SIGWINCH
	SIGXCPU = zz.SIGXCPU
	SIGXFSZ = zz.SIGXFSZ
	SIOCADDDLCI = zz.SIOCADDDLCI
	SIOCADDMULTI = zz.SIOCADDMULTI
	SIOCADDRT = zz.SIOCADDRT
	SIOCATMARK = zz.SIOCATMARK
	SIOCDARP = zz.SIOCDARP
	SIOCDELDLCI = zz.SIOCDELDLCI
	SIOCDELMULTI = zz.SIOCDELMULTI
	SIOCDELRT = zz.SIOCDELRT
	SIOCDEVPRIVATE = zz.SIOCDEVPRIVATE
	SIOCDIFADDR = zz.SIOCDIFADDR
	SIOCDRARP = zz.SIOCDRARP
	SIOCGARP = zz.SIOCGARP
	SIOCGIFADDR = zz.SIOCGIFADDR
	SIOCGIFBR = zz.SIOCGIFBR
	SIOCGIFBRDADDR = zz.SIOCGIFBRDADDR
	SIOCGIFCONF = zz.SIOCGIFCONF
	SIOCGIFCOUNT = zz.SIOCGIFCOUNT
	SIOCGIFDSTADDR = zz.SIOCGIFDSTADDR
	SIOCGIFENCAP = zz.SIOCGIFENCAP
	SIOCGIFFLAGS = zz.SIOCGIFFLAGS
	SIOCGIFHWADDR = zz.SIOCGIFHWADDR
	SIOCGIFINDEX = zz.SIOCGIFINDEX
	SIOCGIFMAP = zz.SIOCGIFMAP
	SIOCGIFMEM = zz.SIOCGIFMEM
	SIOCGIFMETRIC = zz.SIOCGIFMETRIC
	SIOCGIFMTU = zz.SIOCGIFMTU
	SIOCGIFNAME = zz.SIOCGIFNAME
	SIOCGIFNETMASK = zz.SIOCGIFNETMASK
	SIOCGIFPFLAGS = zz.SIOCGIFPFLAGS
	SIOCGIFSLAVE = zz.SIOCGIFSLAVE
	SIOCGIFTXQLEN = zz.SIOCGIFTXQLEN
	SIOCGPGRP = zz.SIOCGPGRP
	SIOCGRARP = zz.SIOCGRARP
	SIOCGSTAMP = zz.SIOCGSTAMP
	SIOCGSTAMPNS = zz.SIOCGSTAMPNS
	SIOCPROTOPRIVATE = zz.SIOCPROTOPRIVATE
	SIOCRTMSG = zz.SIOCRTMSG
	SIOCSARP = zz.SIOCSARP
	SIOCSIFADDR = zz.SIOCSIFADDR
	SIOCSIFBR = zz.SIOCSIFBR
	SIOCSIFBRDADDR = zz.SIOCSIFBRDADDR
	SIOCSIFDSTADDR = zz.SIOCSIFDSTADDR
	SIOCSIFENCAP = zz.SIOCSIFENCAP
	SIOCSIFFLAGS = zz.SIOCSIFFLAGS
	SIOCSIFHWADDR = zz.SIOCSIFHWADDR
	SIOCSIFHWBROADCAST = zz.SIOCSIFHWBROADCAST
	SIOCSIFLINK = zz.SIOCSIFLINK
	SIOCSIFMAP = zz.SIOCSIFMAP
	SIOCSIFMEM = zz.SIOCSIFMEM
	SIOCSIFMETRIC = zz.SIOCSIFMETRIC
	SIOCSIFMTU = zz.SIOCSIFMTU
	SIOCSIFNAME = zz.SIOCSIFNAME
	SIOCSIFNETMASK = zz.SIOCSIFNETMASK
	SIOCSIFPFLAGS = zz.SIOCSIFPFLAGS
	SIOCSIFSLAVE = zz.SIOCSIFSLAVE
	SIOCSIFTXQLEN = zz.SIOCSIFTXQLEN
	SIOCSPGRP = zz.SIOCSPGRP
	SIOCSRARP = zz.SIOCSRARP
	SOCK_CLOEXEC = zz.SOCK_CLOEXEC
	SOCK_DCCP = zz.SOCK_DCCP
	SOCK_DGRAM = zz.SOCK_DGRAM
	SOCK_NONBLOCK = zz.SOCK_NONBLOCK
	SOCK_PACKET = zz.SOCK_PACKET
	SOCK_RAW = zz.SOCK_RAW
	SOCK_RDM = zz.SOCK_RDM
	SOCK_SEQPACKET = zz.SOCK_SEQPACKET
	SOCK_STREAM = zz.SOCK_STREAM
	SOL_AAL = zz.SOL_AAL
	SOL_ATM = zz.SOL_ATM
	SOL_DECNET = zz.SOL_DECNET
	SOL_ICMPV6 = zz.SOL_ICMPV6
	SOL_IP = zz.SOL_IP
	SOL_IPV6 = zz.SOL_IPV6
	SOL_IRDA = zz.SOL_IRDA
	SOL_PACKET = zz.SOL_PACKET
	SOL_RAW = zz.SOL_RAW
	SOL_SOCKET = zz.SOL_SOCKET
	SOL_TCP = zz.SOL_TCP
	SOL_X25 = zz.SOL_X25
	SOMAXCONN = zz.SOMAXCONN
	SO_ACCEPTCONN = zz.SO_ACCEPTCONN
	SO_ATTACH_FILTER = zz.SO_ATTACH_FILTER
	SO_BINDTODEVICE = zz.SO_BINDTODEVICE
	SO_BROADCAST = zz.SO_BROADCAST
	SO_BSDCOMPAT = zz.SO_BSDCOMPAT
	SO_DEBUG = zz.SO_DEBUG
	SO_DETACH_FILTER = zz.SO_DETACH_FILTER
	SO_DOMAIN = zz.SO_DOMAIN
	SO_DONTROUTE = zz.SO_DONTROUTE
	SO_ERROR = zz.SO_ERROR
	SO_KEEPALIVE = zz.SO_KEEPALIVE
	SO_LINGER = zz.SO_LINGER
	SO_MARK = zz.SO_MARK
	SO_NO_CHECK = zz.SO_NO_CHECK
	SO_OOBINLINE = zz.SO_OOBINLINE
	SO_PASSCRED = zz.SO_PASSCRED
	SO_PASSSEC = zz.SO_PASSSEC
	SO_PEERCRED = zz.SO_PEERCRED
	SO_PEERNAME = zz.SO_PEERNAME
	SO_PEERSEC = zz.SO_PEERSEC
	SO_PRIORITY = zz.SO_PRIORITY
	SO_PROTOCOL = zz.SO_PROTOCOL
	SO_RCVBUF = zz.SO_RCVBUF
	SO_RCVBUFFORCE = zz.SO_RCVBUFFORCE
	SO_RCVLOWAT = zz.SO_RCVLOWAT
	SO_RCVTIMEO = zz.SO_RCVTIMEO
	SO_REUSEADDR = zz.SO_REUSEADDR
	SO_RXQ_OVFL = zz.SO_RXQ_OVFL
	SO_SECURITY_AUTHENTICATION = zz.SO_SECURITY_AUTHENTICATION
	SO_SECURITY_ENCRYPTION_NETWORK = zz.SO_SECURITY_ENCRYPTION_NETWORK
	SO_SECURITY_ENCRYPTION_TRANSPORT = zz.SO_SECURITY_ENCRYPTION_TRANSPORT
	SO_SNDBUF = zz.SO_SNDBUF
	SO_SNDBUFFORCE = zz.SO_SNDBUFFORCE
	SO_SNDLOWAT = zz.SO_SNDLOWAT
	SO_SNDTIMEO = zz.SO_SNDTIMEO
	SO_TIMESTAMP = zz.SO_TIMESTAMP
	SO_TIMESTAMPING = zz.SO_TIMESTAMPING
	SO_TIMESTAMPNS = zz.SO_TIMESTAMPNS
	SO_TYPE = zz.SO_TYPE
	SYS_ACCEPT = zz.SYS_ACCEPT
	SYS_ACCEPT4 = zz.SYS_ACCEPT4
	SYS_ACCESS = zz.SYS_ACCESS
	SYS_ACCT = zz.SYS_ACCT
	SYS_ADD_KEY = zz.SYS_ADD_KEY
	SYS_ADJTIMEX = zz.SYS_ADJTIMEX
	SYS_AFS_SYSCALL = zz.SYS_AFS_SYSCALL
	SYS_ALARM = zz.SYS_ALARM
	SYS_ARCH_PRCTL = zz.SYS_ARCH_PRCTL
	SYS_BIND = zz.SYS_BIND
	SYS_BRK = zz.SYS_BRK
	SYS_CAPGET = zz.SYS_CAPGET
	SYS_CAPSET = zz.SYS_CAPSET
	SYS_CHDIR = zz.SYS_CHDIR
	SYS_CHMOD = zz.SYS_CHMOD
	SYS_CHOWN = zz.SYS_CHOWN
	SYS_CHROOT = zz.SYS_CHROOT
	SYS_CLOCK_GETRES = zz.SYS_CLOCK_GETRES
	SYS_CLOCK_GETTIME = zz.SYS_CLOCK_GETTIME
	SYS_CLOCK_NANOSLEEP = zz.SYS_CLOCK_NANOSLEEP
	SYS_CLOCK_SETTIME = zz.SYS_CLOCK_SETTIME
	SYS_CLONE = zz.SYS_CLONE
	SYS_CLOSE = zz.SYS_CLOSE
	SYS_CONNECT = zz.SYS_CONNECT
	SYS_CREAT = zz.SYS_CREAT
	SYS_CREATE_MODULE = zz.SYS_CREATE_MODULE
	SYS_DELETE_MODULE = zz.SYS_DELETE_MODULE
	SYS_DUP = zz.SYS_DUP
	SYS_DUP2 = zz.SYS_DUP2
	SYS_DUP3 = zz.SYS_DUP3
	SYS_EPOLL_CREATE = zz.SYS_EPOLL_CREATE
	SYS_EPOLL_CREATE1 = zz.SYS_EPOLL_CREATE1
	SYS_EPOLL_CTL = zz.SYS_EPOLL_CTL
	SYS_EPOLL_CTL_OLD = zz.SYS_EPOLL_CTL_OLD
	SYS_EPOLL_PWAIT = zz.SYS_EPOLL_PWAIT
	SYS_EPOLL_WAIT = zz.SYS_EPOLL_WAIT
	SYS_EPOLL_WAIT_OLD = zz.SYS_EPOLL_WAIT_OLD
	SYS_EVENTFD = zz.SYS_EVENTFD
	SYS_EVENTFD2 = zz.SYS_EVENTFD2
	SYS_EXECVE = zz.SYS_EXECVE
	SYS_EXIT = zz.SYS_EXIT
	SYS_EXIT_GROUP = zz.SYS_EXIT_GROUP
	SYS_FACCESSAT = zz.SYS_FACCESSAT
	SYS_FADVISE64 = zz.SYS_FADVISE64
	SYS_FALLOCATE = zz.SYS_FALLOCATE
	SYS_FANOTIFY_INIT = zz.SYS_FANOTIFY_INIT
	SYS_FANOTIFY_MARK = zz.SYS_FANOTIFY_MARK
	SYS_FCHDIR = zz.SYS_FCHDIR
	SYS_FCHMOD = zz.SYS_FCHMOD
	SYS_FCHMODAT = zz.SYS_FCHMODAT
	SYS_FCHOWN = zz.SYS_FCHOWN
	SYS_FCHOWNAT = zz.SYS_FCHOWNAT
	SYS_FCNTL = zz.SYS_FCNTL
	SYS_FDATASYNC = zz.SYS_FDATASYNC
	SYS_FGETXATTR = zz.SYS_FGETXATTR
	SYS_FLISTXATTR = zz.SYS_FLISTXATTR
	SYS_FLOCK = zz.SYS_FLOCK
	SYS_FORK = zz.SYS_FORK
	SYS_FREMOVEXATTR = zz.SYS_FREMOVEXATTR
	SYS_FSETXATTR = zz.SYS_FSETXATTR
	SYS_FSTAT = zz.SYS_FSTAT
	SYS_FSTATFS = zz.SYS_FSTATFS
	SYS_FSYNC = zz.SYS_FSYNC
	SYS_FTRUNCATE = zz.SYS_FTRUNCATE
	SYS_FUTEX = zz.SYS_FUTEX
	SYS_FUTIMESAT = zz.SYS_FUTIMESAT
	SYS_GETCWD = zz.SYS_GETCWD
	SYS_GETDENTS = zz.SYS_GETDENTS
	SYS_GETDENTS64 = zz.SYS_GETDENTS64
	SYS_GETEGID = zz.SYS_GETEGID
	SYS_GETEUID = zz.SYS_GETEUID
	SYS_GETGID = zz.SYS_GETGID
	SYS_GETGROUPS = zz.SYS_GETGROUPS
	SYS_GETITIMER = zz.SYS_GETITIMER
	SYS_GETPEERNAME = zz.SYS_GETPEERNAME
	SYS_GETPGID = zz.SYS_GETPGID
	SYS_GETPGRP = zz.SYS_GETPGRP
	SYS_GETPID = zz.SYS_GETPID
	SYS_GETPMSG = zz.SYS_GETPMSG
	SYS_GETPPID = zz.SYS_GETPPID
	SYS_GETPRIORITY = zz.SYS_GETPRIORITY
	SYS_GETRESGID = zz.SYS_GETRESGID
	SYS_GETRESUID = zz.SYS_GETRESUID
	SYS_GETRLIMIT = zz.SYS_GETRLIMIT
	SYS_GETRUSAGE = zz.SYS_GETRUSAGE
	SYS_GETSID = zz.SYS_GETSID
	SYS_GETSOCKNAME = zz.SYS_GETSOCKNAME
	SYS_GETSOCKOPT = zz.SYS_GETSOCKOPT
	SYS_GETTID = zz.SYS_GETTID
	SYS_GETTIMEOFDAY = zz.SYS_GETTIMEOFDAY
	SYS_GETUID = zz.SYS_GETUID
	SYS_GETXATTR = zz.SYS_GETXATTR
	SYS_GET_KERNEL_SYMS = zz.SYS_GET_KERNEL_SYMS
	SYS_GET_MEMPOLICY = zz.SYS_GET_MEMPOLICY
	SYS_GET_ROBUST_LIST = zz.SYS_GET_ROBUST_LIST
	SYS_GET_THREAD_AREA = zz.SYS_GET_THREAD_AREA
	SYS_INIT_MODULE = zz.SYS_INIT_MODULE
	SYS_INOTIFY_ADD_WATCH = zz.SYS_INOTIFY_ADD_WATCH
	SYS_INOTIFY_INIT = zz.SYS_INOTIFY_INIT
	SYS_INOTIFY_INIT1 = zz.SYS_INOTIFY_INIT1
	SYS_INOTIFY_RM_WATCH = zz.SYS_INOTIFY_RM_WATCH
	SYS_IOCTL = zz.SYS_IOCTL
	SYS_IOPERM = zz.SYS_IOPERM
	SYS_IOPL = zz.SYS_IOPL
	SYS_IOPRIO_GET = zz.SYS_IOPRIO_GET
	SYS_IOPRIO_SET = zz.SYS_IOPRIO_SET
	SYS_IO_CANCEL = zz.SYS_IO_CANCEL
	SYS_IO_DESTROY = zz.SYS_IO_DESTROY
	SYS_IO_GETEVENTS = zz.SYS_IO_GETEVENTS
	SYS_IO_SETUP = zz.SYS_IO_SETUP
	SYS_IO_SUBMIT = zz.SYS_IO_SUBMIT
	SYS_KEXEC_LOAD = zz.SYS_KEXEC_LOAD
	SYS_KEYCTL = zz.SYS_KEYCTL
	SYS_KILL = zz.SYS_KILL
	SYS_LCHOWN = zz.SYS_LCHOWN
	SYS_LGETXATTR = zz.SYS_LGETXATTR
	SYS_LINK = zz.SYS_LINK
	SYS_LINKAT = zz.SYS_LINKAT
	SYS_LISTEN = zz.SYS_LISTEN
	SYS_LISTXATTR = zz.SYS_LISTXATTR
	SYS_LLISTXATTR = zz.SYS_LLISTXATTR
	SYS_LOOKUP_DCOOKIE = zz.SYS_LOOKUP_DCOOKIE
	SYS_LREMOVEXATTR = zz.SYS_LREMOVEXATTR
	SYS_LSEEK = zz.SYS_LSEEK
	SYS_LSETXATTR = zz.SYS_LSETXATTR
	SYS_LSTAT = zz.SYS_LSTAT
	SYS_MADVISE = zz.SYS_MADVISE
	SYS_MBIND = zz.SYS_MBIND
	SYS_MIGRATE_PAGES = zz.SYS_MIGRATE_PAGES
	SYS_MINCORE = zz.SYS_MINCORE
	SYS_MKDIR = zz.SYS_MKDIR
	SYS_MKDIRAT = zz.SYS_MKDIRAT
	SYS_MKNOD = zz.SYS_MKNOD
	SYS_MKNODAT = zz.SYS_MKNODAT
	SYS_MLOCK = zz.SYS_MLOCK
	SYS_MLOCKALL = zz.SYS_MLOCKALL
	SYS_MMAP = zz.SYS_MMAP
	SYS_MODIFY_LDT = zz.SYS_MODIFY_LDT
	SYS_MOUNT = zz.SYS_MOUNT
	SYS_MOVE_PAGES = zz.SYS_MOVE_PAGES
	SYS_MPROTECT = zz.SYS_MPROTECT
	SYS_MQ_GETSETATTR = zz.SYS_MQ_GETSETATTR
	SYS_MQ_NOTIFY = zz.SYS_MQ_NOTIFY
	SYS_MQ_OPEN = zz.SYS_MQ_OPEN
	SYS_MQ_TIMEDRECEIVE = zz.SYS_MQ_TIMEDRECEIVE
	SYS_MQ_TIMEDSEND = zz.SYS_MQ_TIMEDSEND
	SYS_MQ_UNLINK = zz.SYS_MQ_UNLINK
	SYS_MREMAP = zz.SYS_MREMAP
	SYS_MSGCTL = zz.SYS_MSGCTL
	SYS_MSGGET = zz.SYS_MSGGET
	SYS_MSGRCV = zz.SYS_MSGRCV
	SYS_MSGSND = zz.SYS_MSGSND
	SYS_MSYNC = zz.SYS_MSYNC
	SYS_MUNLOCK = zz.SYS_MUNLOCK
	SYS_MUNLOCKALL = zz.SYS_MUNLOCKALL
	SYS_MUNMAP = zz.SYS_MUNMAP
	SYS_NANOSLEEP = zz.SYS_NANOSLEEP
	SYS_NEWFSTATAT = zz.SYS_NEWFSTATAT
	SYS_NFSSERVCTL = zz.SYS_NFSSERVCTL
	SYS_OPEN = zz.SYS_OPEN
	SYS_OPENAT = zz.SYS_OPENAT
	SYS_PAUSE = zz.SYS_PAUSE
	SYS_PERF_EVENT_OPEN = zz.SYS_PERF_EVENT_OPEN
	SYS_PERSONALITY = zz.SYS_PERSONALITY
	SYS_PIPE = zz.SYS_PIPE
	SYS_PIPE2 = zz.SYS_PIPE2
	SYS_PIVOT_ROOT = zz.SYS_PIVOT_ROOT
	SYS_POLL = zz.SYS_POLL
	SYS_PPOLL = zz.SYS_PPOLL
	SYS_PRCTL = zz.SYS_PRCTL
	SYS_PREAD64 = zz.SYS_PREAD64
	SYS_PREADV = zz.SYS_PREADV
	SYS_PRLIMIT64 = zz.SYS_PRLIMIT64
	SYS_PSELECT6 = zz.SYS_PSELECT6
	SYS_PTRACE = zz.SYS_PTRACE
	SYS_PUTPMSG = zz.SYS_PUTPMSG
	SYS_PWRITE64 = zz.SYS_PWRITE64
	SYS_PWRITEV = zz.SYS_PWRITEV
	SYS_QUERY_MODULE = zz.SYS_QUERY_MODULE
	SYS_QUOTACTL = zz.SYS_QUOTACTL
	SYS_READ = zz.SYS_READ
	SYS_READAHEAD = zz.SYS_READAHEAD
	SYS_READLINK = zz.SYS_READLINK
	SYS_READLINKAT = zz.SYS_READLINKAT
	SYS_READV = zz.SYS_READV
	SYS_REBOOT = zz.SYS_REBOOT
	SYS_RECVFROM = zz.SYS_RECVFROM
	SYS_RECVMMSG = zz.SYS_RECVMMSG
	SYS_RECVMSG = zz.SYS_RECVMSG
	SYS_REMAP_FILE_PAGES = zz.SYS_REMAP_FILE_PAGES
	SYS_REMOVEXATTR = zz.SYS_REMOVEXATTR
	SYS_RENAME = zz.SYS_RENAME
	SYS_RENAMEAT = zz.SYS_RENAMEAT
	SYS_REQUEST_KEY = zz.SYS_REQUEST_KEY
	SYS_RESTART_SYSCALL = zz.SYS_RESTART_SYSCALL
	SYS_RMDIR = zz.SYS_RMDIR
	SYS_RT_SIGACTION = zz.SYS_RT_SIGACTION
	SYS_RT_SIGPENDING = zz.SYS_RT_SIGPENDING
	SYS_RT_SIGPROCMASK = zz.SYS_RT_SIGPROCMASK
	SYS_RT_SIGQUEUEINFO = zz.SYS_RT_SIGQUEUEINFO
	SYS_RT_SIGRETURN = zz.SYS_RT_SIGRETURN
	SYS_RT_SIGSUSPEND = zz.SYS_RT_SIGSUSPEND
	SYS_RT_SIGTIMEDWAIT = zz.SYS_RT_SIGTIMEDWAIT
	SYS_RT_TGSIGQUEUEINFO = zz.SYS_RT_TGSIGQUEUEINFO
	SYS_SCHED_GETAFFINITY = zz.SYS_SCHED_GETAFFINITY
	SYS_SCHED_GETPARAM = zz.SYS_SCHED_GETPARAM
	SYS_SCHED_GETSCHEDULER = zz.SYS_SCHED_GETSCHEDULER
	SYS_SCHED_GET_PRIORITY_MAX = zz.SYS_SCHED_GET_PRIORITY_MAX
	SYS_SCHED_GET_PRIORITY_MIN = zz.SYS_SCHED_GET_PRIORITY_MIN
	SYS_SCHED_RR_GET_INTERVAL = zz.SYS_SCHED_RR_GET_INTERVAL
	SYS_SCHED_SETAFFINITY = zz.SYS_SCHED_SETAFFINITY
	SYS_SCHED_SETPARAM = zz.SYS_SCHED_SETPARAM
	SYS_SCHED_SETSCHEDULER = zz.SYS_SCHED_SETSCHEDULER
	SYS_SCHED_YIELD = zz.SYS_SCHED_YIELD
	SYS_SECURITY = zz.SYS_SECURITY
	SYS_SELECT = zz.SYS_SELECT
	SYS_SEMCTL = zz.SYS_SEMCTL
	SYS_SEMGET = zz.SYS_SEMGET
	SYS_SEMOP = zz.SYS_SEMOP
	SYS_SEMTIMEDOP = zz.SYS_SEMTIMEDOP
	SYS_SENDFILE = zz.SYS_SENDFILE
	SYS_SENDMSG = zz.SYS_SENDMSG
	SYS_SENDTO = zz.SYS_SENDTO
	SYS_SETDOMAINNAME = zz.SYS_SETDOMAINNAME
	SYS_SETFSGID = zz.SYS_SETFSGID
	SYS_SETFSUID = zz.SYS_SETFSUID
	SYS_SETGID = zz.SYS_SETGID
	SYS_SETGROUPS = zz.SYS_SETGROUPS
	SYS_SETHOSTNAME = zz.SYS_SETHOSTNAME
	SYS_SETITIMER = zz.SYS_SETITIMER
	SYS_SETPGID = zz.SYS_SETPGID
	SYS_SETPRIORITY = zz.SYS_SETPRIORITY
	SYS_SETREGID = zz.SYS_SETREGID
	SYS_SETRESGID = zz.SYS_SETRESGID
	SYS_SETRESUID = zz.SYS_SETRESUID
	SYS_SETREUID = zz.SYS_SETREUID
	SYS_SETRLIMIT = zz.SYS_SETRLIMIT
	SYS_SETSID = zz.SYS_SETSID
	SYS_SETSOCKOPT = zz.SYS_SETSOCKOPT
	SYS_SETTIMEOFDAY = zz.SYS_SETTIMEOFDAY
	SYS_SETUID = zz.SYS_SETUID
	SYS_SETXATTR = zz.SYS_SETXATTR
	SYS_SET_MEMPOLICY = zz.SYS_SET_MEMPOLICY
	SYS_SET_ROBUST_LIST = zz.SYS_SET_ROBUST_LIST
	SYS_SET_THREAD_AREA = zz.SYS_SET_THREAD_AREA
	SYS_SET_TID_ADDRESS = zz.SYS_SET_TID_ADDRESS
	SYS_SHMAT = zz.SYS_SHMAT
	SYS_SHMCTL = zz.SYS_SHMCTL
	SYS_SHMDT = zz.SYS_SHMDT
	SYS_SHMGET = zz.SYS_SHMGET
	SYS_SHUTDOWN = zz.SYS_SHUTDOWN
	SYS_SIGALTSTACK = zz.SYS_SIGALTSTACK
	SYS_SIGNALFD = zz.SYS_SIGNALFD
	SYS_SIGNALFD4 = zz.SYS_SIGNALFD4
	SYS_SOCKET = zz.SYS_SOCKET
	SYS_SOCKETPAIR = zz.SYS_SOCKETPAIR
	SYS_SPLICE = zz.SYS_SPLICE
	SYS_STAT = zz.SYS_STAT
	SYS_STATFS = zz.SYS_STATFS
	SYS_SWAPOFF = zz.SYS_SWAPOFF
	SYS_SWAPON = zz.SYS_SWAPON
	SYS_SYMLINK = zz.SYS_SYMLINK
	SYS_SYMLINKAT = zz.SYS_SYMLINKAT
	SYS_SYNC = zz.SYS_SYNC
	SYS_SYNC_FILE_RANGE = zz.SYS_SYNC_FILE_RANGE
	SYS_SYSFS = zz.SYS_SYSFS
	SYS_SYSINFO = zz.SYS_SYSINFO
	SYS_SYSLOG = zz.SYS_SYSLOG
	SYS_TEE = zz.SYS_TEE
	SYS_TGKILL = zz.SYS_TGKILL
	SYS_TIME = zz.SYS_TIME
	SYS_TIMERFD_CREATE = zz.SYS_TIMERFD_CREATE
	SYS_TIMERFD_GETTIME = zz.SYS_TIMERFD_GETTIME
	SYS_TIMERFD_SETTIME = zz.SYS_TIMERFD_SETTIME
	SYS_TIMER_CREATE = zz.SYS_TIMER_CREATE
	SYS_TIMER_DELETE = zz.SYS_TIMER_DELETE
	SYS_TIMER_GETOVERRUN = zz.SYS_TIMER_GETOVERRUN
	SYS_TIMER_GETTIME = zz.SYS_TIMER_GETTIME
	SYS_TIMER_SETTIME = zz.SYS_TIMER_SETTIME
	SYS_TIMES = zz.SYS_TIMES
	SYS_TKILL = zz.SYS_TKILL
	SYS_TRUNCATE = zz.SYS_TRUNCATE
	SYS_TUXCALL = zz.SYS_TUXCALL
	SYS_UMASK = zz.SYS_UMASK
	SYS_UMOUNT2 = zz.SYS_UMOUNT2
	SYS_UNAME = zz.SYS_UNAME
	SYS_UNLINK = zz.SYS_UNLINK
	SYS_UNLINKAT = zz.SYS_UNLINKAT
	SYS_UNSHARE = zz.SYS_UNSHARE
	SYS_USELIB = zz.SYS_USELIB
	SYS_USTAT = zz.SYS_USTAT
	SYS_UTIME = zz.SYS_UTIME
	SYS_UTIMENSAT = zz.SYS_UTIMENSAT
	SYS_UTIMES = zz.SYS_UTIMES
	SYS_VFORK = zz.SYS_VFORK
	SYS_VHANGUP = zz.SYS_VHANGUP
	SYS_VMSPLICE = zz.SYS_VMSPLICE
	SYS_VSERVER = zz.SYS_VSERVER
	SYS_WAIT4 = zz.SYS_WAIT4
	SYS_WAITID = zz.SYS_WAITID
	SYS_WRITE = zz.SYS_WRITE
	SYS_WRITEV = zz.SYS_WRITEV
	SYS__SYSCTL = zz.SYS__SYSCTL
	S_BLKSIZE = zz.S_BLKSIZE
	S_IEXEC = zz.S_IEXEC
	S_IFBLK = zz.S_IFBLK
	S_IFCHR = zz.S_IFCHR
	S_IFDIR = zz.S_IFDIR
	S_IFIFO = zz.S_IFIFO
	S_IFLNK = zz.S_IFLNK
	S_IFMT = zz.S_IFMT
	S_IFREG = zz.S_IFREG
	S_IFSOCK = zz.S_IFSOCK
	S_IREAD = zz.S_IREAD
	S_IRGRP = zz.S_IRGRP
	S_IROTH = zz.S_IROTH
	S_IRUSR = zz.S_IRUSR
	S_IRWXG = zz.S_IRWXG
	S_IRWXO = zz.S_IRWXO
	S_IRWXU = zz.S_IRWXU
	S_ISGID = zz.S_ISGID
	S_ISUID = zz.S_ISUID
	S_ISVTX = zz.S_ISVTX
	S_IWGRP = zz.S_IWGRP
	S_IWOTH = zz.S_IWOTH
	S_IWRITE = zz.S_IWRITE
	S_IWUSR = zz.S_IWUSR
	S_IXGRP = zz.S_IXGRP
	S_IXOTH = zz.S_IXOTH
	S_IXUSR = zz.S_IXUSR
	SizeofCmsghdr = zz.SizeofCmsghdr
	SizeofICMPv6Filter = zz.SizeofICMPv6Filter
	SizeofIPMreq = zz.SizeofIPMreq
	SizeofIPMreqn = zz.SizeofIPMreqn
	SizeofIPv6MTUInfo = zz.SizeofIPv6MTUInfo
	SizeofIPv6Mreq = zz.SizeofIPv6Mreq
	SizeofIfAddrmsg = zz.SizeofIfAddrmsg
	SizeofIfInfomsg = zz.SizeofIfInfomsg
	SizeofInet4Pktinfo = zz.SizeofInet4Pktinfo
	SizeofInet6Pktinfo = zz.SizeofInet6Pktinfo
	SizeofInotifyEvent = zz.SizeofInotifyEvent
	SizeofLinger = zz.SizeofLinger
	SizeofMsghdr = zz.SizeofMsghdr
	SizeofNlAttr = zz.SizeofNlAttr
	SizeofNlMsgerr = zz.SizeofNlMsgerr
	SizeofNlMsghdr = zz.SizeofNlMsghdr
	SizeofRtAttr = zz.SizeofRtAttr
	SizeofRtGenmsg = zz.SizeofRtGenmsg
	SizeofRtMsg = zz.SizeofRtMsg
	SizeofRtNexthop = zz.SizeofRtNexthop
	SizeofSockFilter = zz.SizeofSockFilter
	SizeofSockFprog = zz.SizeofSockFprog
	SizeofSockaddrAny = zz.SizeofSockaddrAny
	SizeofSockaddrInet4 = zz.SizeofSockaddrInet4
	SizeofSockaddrInet6 = zz.SizeofSockaddrInet6
	SizeofSockaddrLinklayer = zz.SizeofSockaddrLinklayer
	SizeofSockaddrNetlink = zz.SizeofSockaddrNetlink
	SizeofSockaddrUnix = zz.SizeofSockaddrUnix
	SizeofTCPInfo = zz.SizeofTCPInfo
	SizeofUcred = zz.SizeofUcred
	TCGETS = zz.TCGETS
	TCIFLUSH = zz.TCIFLUSH
	TCIOFLUSH = zz.TCIOFLUSH
	TCOFLUSH = zz.TCOFLUSH
	TCP_CONGESTION = zz.TCP_CONGESTION
	TCP_CORK = zz.TCP_CORK
	TCP_DEFER_ACCEPT = zz.TCP_DEFER_ACCEPT
	TCP_INFO = zz.TCP_INFO
	TCP_KEEPCNT = zz.TCP_KEEPCNT
	TCP_KEEPIDLE = zz.TCP_KEEPIDLE
	TCP_KEEPINTVL = zz.TCP_KEEPINTVL
	TCP_LINGER2 = zz.TCP_LINGER2
	TCP_MAXSEG = zz.TCP_MAXSEG
	TCP_MAXWIN = zz.TCP_MAXWIN
	TCP_MAX_WINSHIFT = zz.TCP_MAX_WINSHIFT
	TCP_MD5SIG = zz.TCP_MD5SIG
	TCP_MD5SIG_MAXKEYLEN = zz.TCP_MD5SIG_MAXKEYLEN
	TCP_MSS = zz.TCP_MSS
	TCP_NODELAY = zz.TCP_NODELAY
	TCP_QUICKACK = zz.TCP_QUICKACK
	TCP_SYNCNT = zz.TCP_SYNCNT
	TCP_WINDOW_CLAMP = zz.TCP_WINDOW_CLAMP
	TCSETS = zz.TCSETS
	TIOCCBRK = zz.TIOCCBRK
	TIOCCONS = zz.TIOCCONS
	TIOCEXCL = zz.TIOCEXCL
	TIOCGDEV = zz.TIOCGDEV
	TIOCGETD = zz.TIOCGETD
	TIOCGICOUNT = zz.TIOCGICOUNT
	TIOCGLCKTRMIOS = zz.TIOCGLCKTRMIOS
	TIOCGPGRP = zz.TIOCGPGRP
	TIOCGPTN = zz.TIOCGPTN
	TIOCGRS485 = zz.TIOCGRS485
	TIOCGSERIAL = zz.TIOCGSERIAL
	TIOCGSID = zz.TIOCGSID
	TIOCGSOFTCAR = zz.TIOCGSOFTCAR
	TIOCGWINSZ = zz.TIOCGWINSZ
	TIOCINQ = zz.TIOCINQ
	TIOCLINUX = zz.TIOCLINUX
	TIOCMBIC = zz.TIOCMBIC
	TIOCMBIS = zz.TIOCMBIS
	TIOCMGET = zz.TIOCMGET
	TIOCMIWAIT = zz.TIOCMIWAIT
	TIOCMSET = zz.TIOCMSET
	TIOCM_CAR = zz.TIOCM_CAR
	TIOCM_CD = zz.TIOCM_CD
	TIOCM_CTS = zz.TIOCM_CTS
	TIOCM_DSR = zz.TIOCM_DSR
	TIOCM_DTR = zz.TIOCM_DTR
	TIOCM_LE = zz.TIOCM_LE
	TIOCM_RI = zz.TIOCM_RI
	TIOCM_RNG = zz.TIOCM_RNG
	TIOCM_RTS = zz.TIOCM_RTS
	TIOCM_SR = zz.TIOCM_SR
	TIOCM_ST = zz.TIOCM_ST
	TIOCNOTTY = zz.TIOCNOTTY
	TIOCNXCL = zz.TIOCNXCL
	TIOCOUTQ = zz.TIOCOUTQ
	TIOCPKT = zz.TIOCPKT
	TIOCPKT_DATA = zz.TIOCPKT_DATA
	TIOCPKT_DOSTOP = zz.TIOCPKT_DOSTOP
	TIOCPKT_FLUSHREAD = zz.TIOCPKT_FLUSHREAD
	TIOCPKT_FLUSHWRITE = zz.TIOCPKT_FLUSHWRITE
	TIOCPKT_IOCTL = zz.TIOCPKT_IOCTL
	TIOCPKT_NOSTOP = zz.TIOCPKT_NOSTOP
	TIOCPKT_START = zz.TIOCPKT_START
	TIOCPKT_STOP = zz.TIOCPKT_STOP
	TIOCSBRK = zz.TIOCSBRK
	TIOCSCTTY = zz.TIOCSCTTY
	TIOCSERCONFIG = zz.TIOCSERCONFIG
	TIOCSERGETLSR = zz.TIOCSERGETLSR
	TIOCSERGETMULTI = zz.TIOCSERGETMULTI
	TIOCSERGSTRUCT = zz.TIOCSERGSTRUCT
	TIOCSERGWILD = zz.TIOCSERGWILD
	TIOCSERSETMULTI = zz.TIOCSERSETMULTI
	TIOCSERSWILD = zz.TIOCSERSWILD
	TIOCSER_TEMT = zz.TIOCSER_TEMT
	TIOCSETD = zz.TIOCSETD
	TIOCSIG = zz.TIOCSIG
	TIOCSLCKTRMIOS = zz.TIOCSLCKTRMIOS
	TIOCSPGRP = zz.TIOCSPGRP
	TIOCSPTLCK = zz.TIOCSPTLCK
	TIOCSRS485 = zz.TIOCSRS485
	TIOCSSERIAL = zz.TIOCSSERIAL
	TIOCSSOFTCAR = zz.TIOCSSOFTCAR
	TIOCSTI = zz.TIOCSTI
	TIOCSWINSZ = zz.TIOCSWINSZ
	TOSTOP = zz.TOSTOP
	TUNATTACHFILTER = zz.TUNATTACHFILTER
	TUNDETACHFILTER = zz.TUNDETACHFILTER
	TUNGETFEATURES = zz.TUNGETFEATURES
	TUNGETIFF = zz.TUNGETIFF
	TUNGETSNDBUF = zz.TUNGETSNDBUF
	TUNGETVNETHDRSZ = zz.TUNGETVNETHDRSZ
	TUNSETDEBUG = zz.TUNSETDEBUG
	TUNSETGROUP = zz.TUNSETGROUP
	TUNSETIFF = zz.TUNSETIFF
	TUNSETLINK = zz.TUNSETLINK
	TUNSETNOCSUM = zz.TUNSETNOCSUM
	TUNSETOFFLOAD = zz.TUNSETOFFLOAD
	TUNSETOWNER = zz.TUNSETOWNER
	TUNSETPERSIST = zz.TUNSETPERSIST
	TUNSETSNDBUF = zz.TUNSETSNDBUF
	TUNSETTXFILTER = zz.TUNSETTXFILTER
	TUNSETVNETHDRSZ = zz.TUNSETVNETHDRSZ
	VDISCARD = zz.VDISCARD
	VEOF = zz.VEOF
	VEOL = zz.VEOL
	VEOL2 = zz.VEOL2
	VERASE = zz.VERASE
	VINTR = zz.VINTR
	VKILL = zz.VKILL
	VLNEXT = zz.VLNEXT
	VMIN = zz.VMIN
	VQUIT = zz.VQUIT
	VREPRINT = zz.VREPRINT
	VSTART = zz.VSTART
	VSTOP = zz.VSTOP
	VSUSP = zz.VSUSP
	VSWTC = zz.VSWTC
	VTIME = zz.VTIME
	VWERASE = zz.VWERASE
	WALL = zz.WALL
	WCLONE = zz.WCLONE
	WCONTINUED = zz.WCONTINUED
	WEXITED = zz.WEXITED
	WNOHANG = zz.WNOHANG
	WNOTHREAD = zz.WNOTHREAD
	WNOWAIT = zz.WNOWAIT
	WORDSIZE = zz.WORDSIZE
	WSTOPPED = zz.WSTOPPED
	WUNTRACED = zz.WUNTRACED
	XCASE = zz.XCASE
)

type (
	Cmsghdr = zz.Cmsghdr
	Conn = zz.Conn
	Credential = zz.Credential
	Dirent = zz.Dirent
	EpollEvent = zz.EpollEvent
	Errno = zz.Errno
	FdSet = zz.FdSet
	Flock_t = zz.Flock_t
	Fsid = zz.Fsid
	ICMPv6Filter = zz.ICMPv6Filter
	IPMreq = zz.IPMreq
	IPMreqn = zz.IPMreqn
	IPv6MTUInfo = zz.IPv6MTUInfo
	IPv6Mreq = zz.IPv6Mreq
	IfAddrmsg = zz.IfAddrmsg
	IfInfomsg = zz.IfInfomsg
	Inet4Pktinfo = zz.Inet4Pktinfo
	Inet6Pktinfo = zz.Inet6Pktinfo
	InotifyEvent = zz.InotifyEvent
	Iovec = zz.Iovec
	Linger = zz.Linger
	Msghdr = zz.Msghdr
	NetlinkMessage = zz.NetlinkMessage
	NetlinkRouteAttr = zz.NetlinkRouteAttr
	NetlinkRouteRequest = zz.NetlinkRouteRequest
	NlAttr = zz.NlAttr
	NlMsgerr = zz.NlMsgerr
	NlMsghdr = zz.NlMsghdr
	ProcAttr = zz.ProcAttr
	PtraceRegs = zz.PtraceRegs
	RawConn = zz.RawConn
	RawSockaddr = zz.RawSockaddr
	RawSockaddrAny = zz.RawSockaddrAny
	RawSockaddrInet4 = zz.RawSockaddrInet4
	RawSockaddrInet6 = zz.RawSockaddrInet6
	RawSockaddrLinklayer = zz.RawSockaddrLinklayer
	RawSockaddrNetlink = zz.RawSockaddrNetlink
	RawSockaddrUnix = zz.RawSockaddrUnix
	Rlimit = zz.Rlimit
	RtAttr = zz.RtAttr
	RtGenmsg = zz.RtGenmsg
	RtMsg = zz.RtMsg
	RtNexthop = zz.RtNexthop
	Rusage = zz.Rusage
	Signal = zz.Signal
	SockFilter = zz.SockFilter
	SockFprog = zz.SockFprog
	Sockaddr = zz.Sockaddr
	SockaddrInet4 = zz.SockaddrInet4
	SockaddrInet6 = zz.SockaddrInet6
	SockaddrLinklayer = zz.SockaddrLinklayer
	SockaddrNetlink = zz.SockaddrNetlink
	SockaddrUnix = zz.SockaddrUnix
	SocketControlMessage = zz.SocketControlMessage
	Stat_t = zz.Stat_t
	Statfs_t = zz.Statfs_t
	SysProcAttr = zz.SysProcAttr
	SysProcIDMap = zz.SysProcIDMap
	Sysinfo_t = zz.Sysinfo_t
	TCPInfo = zz.TCPInfo
	Termios = zz.Termios
	Time_t = zz.Time_t
	Timespec = zz.Timespec
	Timeval = zz.Timeval
	Timex = zz.Timex
	Tms = zz.Tms
	Ucred = zz.Ucred
	Ustat_t = zz.Ustat_t
	Utimbuf = zz.Utimbuf
	Utsname = zz.Utsname
	WaitStatus = zz.WaitStatus
)

var (
	ForkLock = zz.ForkLock
	SocketDisableIPv6 = zz.SocketDisableIPv6
	Stderr = zz.Stderr
	Stdin = zz.Stdin
	Stdout = zz.Stdout
	Accept = zz.Accept
	Accept4 = zz.Accept4
	Access = zz.Access
	Acct = zz.Acct
	Adjtimex = zz.Adjtimex
	AllThreadsSyscall = zz.AllThreadsSyscall
	AllThreadsSyscall6 = zz.AllThreadsSyscall6
	AttachLsf = zz.AttachLsf
	Bind = zz.Bind
	BindToDevice = zz.BindToDevice
	BytePtrFromString = zz.BytePtrFromString
	ByteSliceFromString = zz.ByteSliceFromString
	Clearenv = zz.Clearenv
	CloseOnExec = zz.CloseOnExec
	CmsgLen = zz.CmsgLen
	CmsgSpace = zz.CmsgSpace
	Connect = zz.Connect
	DetachLsf = zz.DetachLsf
	Dup = zz.Dup
	Dup2 = zz.Dup2
	Dup3 = zz.Dup3
	Environ = zz.Environ
	EpollCreate = zz.EpollCreate
	EpollCreate1 = zz.EpollCreate1
	EpollCtl = zz.EpollCtl
	EpollWait = zz.EpollWait
	Faccessat = zz.Faccessat
	Fchmodat = zz.Fchmodat
	Fchownat = zz.Fchownat
	FcntlFlock = zz.FcntlFlock
	Fstat = zz.Fstat
	Fstatfs = zz.Fstatfs
	Futimes = zz.Futimes
	Futimesat = zz.Futimesat
	Getcwd = zz.Getcwd
	Getdents = zz.Getdents
	Getegid = zz.Getegid
	Getenv = zz.Getenv
	Geteuid = zz.Geteuid
	Getgid = zz.Getgid
	Getgroups = zz.Getgroups
	Getpagesize = zz.Getpagesize
	Getpeername = zz.Getpeername
	Getpgid = zz.Getpgid
	Getpgrp = zz.Getpgrp
	Getpid = zz.Getpid
	Getppid = zz.Getppid
	Getpriority = zz.Getpriority
	Getrlimit = zz.Getrlimit
	Getrusage = zz.Getrusage
	Getsockname = zz.Getsockname
	GetsockoptICMPv6Filter = zz.GetsockoptICMPv6Filter
	GetsockoptIPMreq = zz.GetsockoptIPMreq
	GetsockoptIPMreqn = zz.GetsockoptIPMreqn
	GetsockoptIPv6MTUInfo = zz.GetsockoptIPv6MTUInfo
	GetsockoptIPv6Mreq = zz.GetsockoptIPv6Mreq
	GetsockoptInet4Addr = zz.GetsockoptInet4Addr
	GetsockoptInt = zz.GetsockoptInt
	GetsockoptUcred = zz.GetsockoptUcred
	Gettid = zz.Gettid
	Gettimeofday = zz.Gettimeofday
	Getuid = zz.Getuid
	Getwd = zz.Getwd
	Getxattr = zz.Getxattr
	InotifyAddWatch = zz.InotifyAddWatch
	InotifyInit = zz.InotifyInit
	InotifyInit1 = zz.InotifyInit1
	InotifyRmWatch = zz.InotifyRmWatch
	Ioperm = zz.Ioperm
	Iopl = zz.Iopl
	Klogctl = zz.Klogctl
	Listen = zz.Listen
	Listxattr = zz.Listxattr
	LsfJump = zz.LsfJump
	LsfSocket = zz.LsfSocket
	LsfStmt = zz.LsfStmt
	Lstat = zz.Lstat
	Madvise = zz.Madvise
	Mkfifo = zz.Mkfifo
	Mlock = zz.Mlock
	Mlockall = zz.Mlockall
	Mmap = zz.Mmap
	Mprotect = zz.Mprotect
	Munlock = zz.Munlock
	Munlockall = zz.Munlockall
	Munmap = zz.Munmap
	Nanosleep = zz.Nanosleep
	NetlinkRIB = zz.NetlinkRIB
	NsecToTimespec = zz.NsecToTimespec
	NsecToTimeval = zz.NsecToTimeval
	ParseDirent = zz.ParseDirent
	ParseNetlinkMessage = zz.ParseNetlinkMessage
	ParseNetlinkRouteAttr = zz.ParseNetlinkRouteAttr
	ParseSocketControlMessage = zz.ParseSocketControlMessage
	ParseUnixCredentials = zz.ParseUnixCredentials
	ParseUnixRights = zz.ParseUnixRights
	Pause = zz.Pause
	Pipe = zz.Pipe
	Pipe2 = zz.Pipe2
	PtraceAttach = zz.PtraceAttach
	PtraceCont = zz.PtraceCont
	PtraceDetach = zz.PtraceDetach
	PtraceGetEventMsg = zz.PtraceGetEventMsg
	PtraceGetRegs = zz.PtraceGetRegs
	PtracePeekData = zz.PtracePeekData
	PtracePeekText = zz.PtracePeekText
	PtracePokeData = zz.PtracePokeData
	PtracePokeText = zz.PtracePokeText
	PtraceSetOptions = zz.PtraceSetOptions
	PtraceSetRegs = zz.PtraceSetRegs
	PtraceSingleStep = zz.PtraceSingleStep
	PtraceSyscall = zz.PtraceSyscall
	RawSyscall = zz.RawSyscall
	RawSyscall6 = zz.RawSyscall6
	ReadDirent = zz.ReadDirent
	Readlink = zz.Readlink
	Recvfrom = zz.Recvfrom
	Recvmsg = zz.Recvmsg
	Removexattr = zz.Removexattr
	Select = zz.Select
	Sendfile = zz.Sendfile
	Sendmsg = zz.Sendmsg
	SendmsgN = zz.SendmsgN
	Sendto = zz.Sendto
	SetLsfPromisc = zz.SetLsfPromisc
	SetNonblock = zz.SetNonblock
	Setegid = zz.Setegid
	Setenv = zz.Setenv
	Seteuid = zz.Seteuid
	Setfsgid = zz.Setfsgid
	Setfsuid = zz.Setfsuid
	Setgroups = zz.Setgroups
	Setpgid = zz.Setpgid
	Setpriority = zz.Setpriority
	Setregid = zz.Setregid
	Setresgid = zz.Setresgid
	Setresuid = zz.Setresuid
	Setreuid = zz.Setreuid
	Setrlimit = zz.Setrlimit
	Setsid = zz.Setsid
	SetsockoptByte = zz.SetsockoptByte
	SetsockoptICMPv6Filter = zz.SetsockoptICMPv6Filter
	SetsockoptIPMreq = zz.SetsockoptIPMreq
	SetsockoptIPMreqn = zz.SetsockoptIPMreqn
	SetsockoptIPv6Mreq = zz.SetsockoptIPv6Mreq
	SetsockoptInet4Addr = zz.SetsockoptInet4Addr
	SetsockoptInt = zz.SetsockoptInt
	SetsockoptLinger = zz.SetsockoptLinger
	SetsockoptString = zz.SetsockoptString
	SetsockoptTimeval = zz.SetsockoptTimeval
	Setxattr = zz.Setxattr
	Shutdown = zz.Shutdown
	SlicePtrFromStrings = zz.SlicePtrFromStrings
	Socket = zz.Socket
	Socketpair = zz.Socketpair
	Splice = zz.Splice
	Stat = zz.Stat
	Statfs = zz.Statfs
	StringBytePtr = zz.StringBytePtr
	StringByteSlice = zz.StringByteSlice
	StringSlicePtr = zz.StringSlicePtr
	SyncFileRange = zz.SyncFileRange
	Syscall = zz.Syscall
	Syscall6 = zz.Syscall6
	Sysinfo = zz.Sysinfo
	Tee = zz.Tee
	Time = zz.Time
	Times = zz.Times
	TimespecToNsec = zz.TimespecToNsec
	TimevalToNsec = zz.TimevalToNsec
	Umask = zz.Umask
	Uname = zz.Uname
	UnixCredentials = zz.UnixCredentials
	UnixRights = zz.UnixRights
	Unsetenv = zz.Unsetenv
	Unshare = zz.Unshare
	Ustat = zz.Ustat
	Utime = zz.Utime
	Utimes = zz.Utimes
	UtimesNano = zz.UtimesNano
	Wait4 = zz.Wait4
)
