// Code generated by passgen. DO NOT EDIT.

package unix

import real "golang.org/x/sys/unix"

const AAFS_MAGIC = real.AAFS_MAGIC
const ADFS_SUPER_MAGIC = real.ADFS_SUPER_MAGIC
const AFFS_SUPER_MAGIC = real.AFFS_SUPER_MAGIC
const AFS_FS_MAGIC = real.AFS_FS_MAGIC
const AFS_SUPER_MAGIC = real.AFS_SUPER_MAGIC
const AF_ALG = real.AF_ALG
const AF_APPLETALK = real.AF_APPLETALK
const AF_ASH = real.AF_ASH
const AF_ATMPVC = real.AF_ATMPVC
const AF_ATMSVC = real.AF_ATMSVC
const AF_AX25 = real.AF_AX25
const AF_BLUETOOTH = real.AF_BLUETOOTH
const AF_BRIDGE = real.AF_BRIDGE
const AF_CAIF = real.AF_CAIF
const AF_CAN = real.AF_CAN
const AF_DECnet = real.AF_DECnet
const AF_ECONET = real.AF_ECONET
const AF_FILE = real.AF_FILE
const AF_IB = real.AF_IB
const AF_IEEE802154 = real.AF_IEEE802154
const AF_INET = real.AF_INET
const AF_INET6 = real.AF_INET6
const AF_IPX = real.AF_IPX
const AF_IRDA = real.AF_IRDA
const AF_ISDN = real.AF_ISDN
const AF_IUCV = real.AF_IUCV
const AF_KCM = real.AF_KCM
const AF_KEY = real.AF_KEY
const AF_LLC = real.AF_LLC
const AF_LOCAL = real.AF_LOCAL
const AF_MAX = real.AF_MAX
const AF_MPLS = real.AF_MPLS
const AF_NETBEUI = real.AF_NETBEUI
const AF_NETLINK = real.AF_NETLINK
const AF_NETROM = real.AF_NETROM
const AF_NFC = real.AF_NFC
const AF_PACKET = real.AF_PACKET
const AF_PHONET = real.AF_PHONET
const AF_PPPOX = real.AF_PPPOX
const AF_QIPCRTR = real.AF_QIPCRTR
const AF_RDS = real.AF_RDS
const AF_ROSE = real.AF_ROSE
const AF_ROUTE = real.AF_ROUTE
const AF_RXRPC = real.AF_RXRPC
const AF_SECURITY = real.AF_SECURITY
const AF_SMC = real.AF_SMC
const AF_SNA = real.AF_SNA
const AF_TIPC = real.AF_TIPC
const AF_UNIX = real.AF_UNIX
const AF_UNSPEC = real.AF_UNSPEC
const AF_VSOCK = real.AF_VSOCK
const AF_WANPIPE = real.AF_WANPIPE
const AF_X25 = real.AF_X25
const AF_XDP = real.AF_XDP
const ALG_OP_DECRYPT = real.ALG_OP_DECRYPT
const ALG_OP_ENCRYPT = real.ALG_OP_ENCRYPT
const ALG_SET_AEAD_ASSOCLEN = real.ALG_SET_AEAD_ASSOCLEN
const ALG_SET_AEAD_AUTHSIZE = real.ALG_SET_AEAD_AUTHSIZE
const ALG_SET_IV = real.ALG_SET_IV
const ALG_SET_KEY = real.ALG_SET_KEY
const ALG_SET_OP = real.ALG_SET_OP
const ANON_INODE_FS_MAGIC = real.ANON_INODE_FS_MAGIC
const ARPHRD_6LOWPAN = real.ARPHRD_6LOWPAN
const ARPHRD_ADAPT = real.ARPHRD_ADAPT
const ARPHRD_APPLETLK = real.ARPHRD_APPLETLK
const ARPHRD_ARCNET = real.ARPHRD_ARCNET
const ARPHRD_ASH = real.ARPHRD_ASH
const ARPHRD_ATM = real.ARPHRD_ATM
const ARPHRD_AX25 = real.ARPHRD_AX25
const ARPHRD_BIF = real.ARPHRD_BIF
const ARPHRD_CAIF = real.ARPHRD_CAIF
const ARPHRD_CAN = real.ARPHRD_CAN
const ARPHRD_CHAOS = real.ARPHRD_CHAOS
const ARPHRD_CISCO = real.ARPHRD_CISCO
const ARPHRD_CSLIP = real.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = real.ARPHRD_CSLIP6
const ARPHRD_DDCMP = real.ARPHRD_DDCMP
const ARPHRD_DLCI = real.ARPHRD_DLCI
const ARPHRD_ECONET = real.ARPHRD_ECONET
const ARPHRD_EETHER = real.ARPHRD_EETHER
const ARPHRD_ETHER = real.ARPHRD_ETHER
const ARPHRD_EUI64 = real.ARPHRD_EUI64
const ARPHRD_FCAL = real.ARPHRD_FCAL
const ARPHRD_FCFABRIC = real.ARPHRD_FCFABRIC
const ARPHRD_FCPL = real.ARPHRD_FCPL
const ARPHRD_FCPP = real.ARPHRD_FCPP
const ARPHRD_FDDI = real.ARPHRD_FDDI
const ARPHRD_FRAD = real.ARPHRD_FRAD
const ARPHRD_HDLC = real.ARPHRD_HDLC
const ARPHRD_HIPPI = real.ARPHRD_HIPPI
const ARPHRD_HWX25 = real.ARPHRD_HWX25
const ARPHRD_IEEE1394 = real.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = real.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = real.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = real.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = real.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = real.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_MONITOR = real.ARPHRD_IEEE802154_MONITOR
const ARPHRD_IEEE802_TR = real.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = real.ARPHRD_INFINIBAND
const ARPHRD_IP6GRE = real.ARPHRD_IP6GRE
const ARPHRD_IPDDP = real.ARPHRD_IPDDP
const ARPHRD_IPGRE = real.ARPHRD_IPGRE
const ARPHRD_IRDA = real.ARPHRD_IRDA
const ARPHRD_LAPB = real.ARPHRD_LAPB
const ARPHRD_LOCALTLK = real.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = real.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = real.ARPHRD_METRICOM
const ARPHRD_NETLINK = real.ARPHRD_NETLINK
const ARPHRD_NETROM = real.ARPHRD_NETROM
const ARPHRD_NONE = real.ARPHRD_NONE
const ARPHRD_PHONET = real.ARPHRD_PHONET
const ARPHRD_PHONET_PIPE = real.ARPHRD_PHONET_PIPE
const ARPHRD_PIMREG = real.ARPHRD_PIMREG
const ARPHRD_PPP = real.ARPHRD_PPP
const ARPHRD_PRONET = real.ARPHRD_PRONET
const ARPHRD_RAWHDLC = real.ARPHRD_RAWHDLC
const ARPHRD_RAWIP = real.ARPHRD_RAWIP
const ARPHRD_ROSE = real.ARPHRD_ROSE
const ARPHRD_RSRVD = real.ARPHRD_RSRVD
const ARPHRD_SIT = real.ARPHRD_SIT
const ARPHRD_SKIP = real.ARPHRD_SKIP
const ARPHRD_SLIP = real.ARPHRD_SLIP
const ARPHRD_SLIP6 = real.ARPHRD_SLIP6
const ARPHRD_TUNNEL = real.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = real.ARPHRD_TUNNEL6
const ARPHRD_VOID = real.ARPHRD_VOID
const ARPHRD_VSOCKMON = real.ARPHRD_VSOCKMON
const ARPHRD_X25 = real.ARPHRD_X25
const AT_EACCESS = real.AT_EACCESS
const AT_EMPTY_PATH = real.AT_EMPTY_PATH
const AT_FDCWD = real.AT_FDCWD
const AT_NO_AUTOMOUNT = real.AT_NO_AUTOMOUNT
const AT_REMOVEDIR = real.AT_REMOVEDIR
const AT_STATX_DONT_SYNC = real.AT_STATX_DONT_SYNC
const AT_STATX_FORCE_SYNC = real.AT_STATX_FORCE_SYNC
const AT_STATX_SYNC_AS_STAT = real.AT_STATX_SYNC_AS_STAT
const AT_SYMLINK_FOLLOW = real.AT_SYMLINK_FOLLOW
const AT_SYMLINK_NOFOLLOW = real.AT_SYMLINK_NOFOLLOW
const AUTOFS_SUPER_MAGIC = real.AUTOFS_SUPER_MAGIC

var Accept = real.Accept
var Accept4 = real.Accept4
var Access = real.Access
var Acct = real.Acct
var AddKey = real.AddKey
var Adjtimex = real.Adjtimex

const B0 = real.B0
const B1000000 = real.B1000000
const B110 = real.B110
const B115200 = real.B115200
const B1152000 = real.B1152000
const B1200 = real.B1200
const B134 = real.B134
const B150 = real.B150
const B1500000 = real.B1500000
const B1800 = real.B1800
const B19200 = real.B19200
const B200 = real.B200
const B2000000 = real.B2000000
const B230400 = real.B230400
const B2400 = real.B2400
const B2500000 = real.B2500000
const B300 = real.B300
const B3000000 = real.B3000000
const B3500000 = real.B3500000
const B38400 = real.B38400
const B4000000 = real.B4000000
const B460800 = real.B460800
const B4800 = real.B4800
const B50 = real.B50
const B500000 = real.B500000
const B57600 = real.B57600
const B576000 = real.B576000
const B600 = real.B600
const B75 = real.B75
const B921600 = real.B921600
const B9600 = real.B9600
const BALLOON_KVM_MAGIC = real.BALLOON_KVM_MAGIC
const BDADDR_BREDR = real.BDADDR_BREDR
const BDADDR_LE_PUBLIC = real.BDADDR_LE_PUBLIC
const BDADDR_LE_RANDOM = real.BDADDR_LE_RANDOM
const BDEVFS_MAGIC = real.BDEVFS_MAGIC
const BINDERFS_SUPER_MAGIC = real.BINDERFS_SUPER_MAGIC
const BINFMTFS_MAGIC = real.BINFMTFS_MAGIC
const BLKBSZGET = real.BLKBSZGET
const BLKBSZSET = real.BLKBSZSET
const BLKFLSBUF = real.BLKFLSBUF
const BLKFRAGET = real.BLKFRAGET
const BLKFRASET = real.BLKFRASET
const BLKGETSIZE = real.BLKGETSIZE
const BLKGETSIZE64 = real.BLKGETSIZE64
const BLKPBSZGET = real.BLKPBSZGET
const BLKPG = real.BLKPG
const BLKPG_ADD_PARTITION = real.BLKPG_ADD_PARTITION
const BLKPG_DEL_PARTITION = real.BLKPG_DEL_PARTITION
const BLKPG_RESIZE_PARTITION = real.BLKPG_RESIZE_PARTITION
const BLKRAGET = real.BLKRAGET
const BLKRASET = real.BLKRASET
const BLKROGET = real.BLKROGET
const BLKROSET = real.BLKROSET
const BLKRRPART = real.BLKRRPART
const BLKSECTGET = real.BLKSECTGET
const BLKSECTSET = real.BLKSECTSET
const BLKSSZGET = real.BLKSSZGET
const BOTHER = real.BOTHER
const BPF_A = real.BPF_A
const BPF_ABS = real.BPF_ABS
const BPF_ADD = real.BPF_ADD
const BPF_ALU = real.BPF_ALU
const BPF_AND = real.BPF_AND
const BPF_B = real.BPF_B
const BPF_DIV = real.BPF_DIV
const BPF_FS_MAGIC = real.BPF_FS_MAGIC
const BPF_H = real.BPF_H
const BPF_IMM = real.BPF_IMM
const BPF_IND = real.BPF_IND
const BPF_JA = real.BPF_JA
const BPF_JEQ = real.BPF_JEQ
const BPF_JGE = real.BPF_JGE
const BPF_JGT = real.BPF_JGT
const BPF_JMP = real.BPF_JMP
const BPF_JSET = real.BPF_JSET
const BPF_K = real.BPF_K
const BPF_LD = real.BPF_LD
const BPF_LDX = real.BPF_LDX
const BPF_LEN = real.BPF_LEN
const BPF_LL_OFF = real.BPF_LL_OFF
const BPF_LSH = real.BPF_LSH
const BPF_MAJOR_VERSION = real.BPF_MAJOR_VERSION
const BPF_MAXINSNS = real.BPF_MAXINSNS
const BPF_MEM = real.BPF_MEM
const BPF_MEMWORDS = real.BPF_MEMWORDS
const BPF_MINOR_VERSION = real.BPF_MINOR_VERSION
const BPF_MISC = real.BPF_MISC
const BPF_MOD = real.BPF_MOD
const BPF_MSH = real.BPF_MSH
const BPF_MUL = real.BPF_MUL
const BPF_NEG = real.BPF_NEG
const BPF_NET_OFF = real.BPF_NET_OFF
const BPF_OR = real.BPF_OR
const BPF_RET = real.BPF_RET
const BPF_RSH = real.BPF_RSH
const BPF_ST = real.BPF_ST
const BPF_STX = real.BPF_STX
const BPF_SUB = real.BPF_SUB
const BPF_TAX = real.BPF_TAX
const BPF_TXA = real.BPF_TXA
const BPF_W = real.BPF_W
const BPF_X = real.BPF_X
const BPF_XOR = real.BPF_XOR
const BRKINT = real.BRKINT
const BS0 = real.BS0
const BS1 = real.BS1
const BSDLY = real.BSDLY
const BTPROTO_AVDTP = real.BTPROTO_AVDTP
const BTPROTO_BNEP = real.BTPROTO_BNEP
const BTPROTO_CMTP = real.BTPROTO_CMTP
const BTPROTO_HCI = real.BTPROTO_HCI
const BTPROTO_HIDP = real.BTPROTO_HIDP
const BTPROTO_L2CAP = real.BTPROTO_L2CAP
const BTPROTO_RFCOMM = real.BTPROTO_RFCOMM
const BTPROTO_SCO = real.BTPROTO_SCO
const BTRFS_SUPER_MAGIC = real.BTRFS_SUPER_MAGIC
const BTRFS_TEST_MAGIC = real.BTRFS_TEST_MAGIC

var Bind = real.Bind
var BindToDevice = real.BindToDevice

type BlkpgIoctlArg = real.BlkpgIoctlArg
type BlkpgPartition = real.BlkpgPartition

var BytePtrFromString = real.BytePtrFromString
var ByteSliceFromString = real.ByteSliceFromString

const CAN_BCM = real.CAN_BCM
const CAN_EFF_FLAG = real.CAN_EFF_FLAG
const CAN_EFF_ID_BITS = real.CAN_EFF_ID_BITS
const CAN_EFF_MASK = real.CAN_EFF_MASK
const CAN_ERR_FLAG = real.CAN_ERR_FLAG
const CAN_ERR_MASK = real.CAN_ERR_MASK
const CAN_INV_FILTER = real.CAN_INV_FILTER
const CAN_ISOTP = real.CAN_ISOTP
const CAN_MAX_DLC = real.CAN_MAX_DLC
const CAN_MAX_DLEN = real.CAN_MAX_DLEN
const CAN_MCNET = real.CAN_MCNET
const CAN_MTU = real.CAN_MTU
const CAN_NPROTO = real.CAN_NPROTO
const CAN_RAW = real.CAN_RAW
const CAN_RAW_FILTER_MAX = real.CAN_RAW_FILTER_MAX
const CAN_RTR_FLAG = real.CAN_RTR_FLAG
const CAN_SFF_ID_BITS = real.CAN_SFF_ID_BITS
const CAN_SFF_MASK = real.CAN_SFF_MASK
const CAN_TP16 = real.CAN_TP16
const CAN_TP20 = real.CAN_TP20
const CBAUD = real.CBAUD
const CBAUDEX = real.CBAUDEX
const CBitFieldMaskBit0 = real.CBitFieldMaskBit0
const CBitFieldMaskBit1 = real.CBitFieldMaskBit1
const CBitFieldMaskBit10 = real.CBitFieldMaskBit10
const CBitFieldMaskBit11 = real.CBitFieldMaskBit11
const CBitFieldMaskBit12 = real.CBitFieldMaskBit12
const CBitFieldMaskBit13 = real.CBitFieldMaskBit13
const CBitFieldMaskBit14 = real.CBitFieldMaskBit14
const CBitFieldMaskBit15 = real.CBitFieldMaskBit15
const CBitFieldMaskBit16 = real.CBitFieldMaskBit16
const CBitFieldMaskBit17 = real.CBitFieldMaskBit17
const CBitFieldMaskBit18 = real.CBitFieldMaskBit18
const CBitFieldMaskBit19 = real.CBitFieldMaskBit19
const CBitFieldMaskBit2 = real.CBitFieldMaskBit2
const CBitFieldMaskBit20 = real.CBitFieldMaskBit20
const CBitFieldMaskBit21 = real.CBitFieldMaskBit21
const CBitFieldMaskBit22 = real.CBitFieldMaskBit22
const CBitFieldMaskBit23 = real.CBitFieldMaskBit23
const CBitFieldMaskBit24 = real.CBitFieldMaskBit24
const CBitFieldMaskBit25 = real.CBitFieldMaskBit25
const CBitFieldMaskBit26 = real.CBitFieldMaskBit26
const CBitFieldMaskBit27 = real.CBitFieldMaskBit27
const CBitFieldMaskBit28 = real.CBitFieldMaskBit28
const CBitFieldMaskBit29 = real.CBitFieldMaskBit29
const CBitFieldMaskBit3 = real.CBitFieldMaskBit3
const CBitFieldMaskBit30 = real.CBitFieldMaskBit30
const CBitFieldMaskBit31 = real.CBitFieldMaskBit31
const CBitFieldMaskBit32 = real.CBitFieldMaskBit32
const CBitFieldMaskBit33 = real.CBitFieldMaskBit33
const CBitFieldMaskBit34 = real.CBitFieldMaskBit34
const CBitFieldMaskBit35 = real.CBitFieldMaskBit35
const CBitFieldMaskBit36 = real.CBitFieldMaskBit36
const CBitFieldMaskBit37 = real.CBitFieldMaskBit37
const CBitFieldMaskBit38 = real.CBitFieldMaskBit38
const CBitFieldMaskBit39 = real.CBitFieldMaskBit39
const CBitFieldMaskBit4 = real.CBitFieldMaskBit4
const CBitFieldMaskBit40 = real.CBitFieldMaskBit40
const CBitFieldMaskBit41 = real.CBitFieldMaskBit41
const CBitFieldMaskBit42 = real.CBitFieldMaskBit42
const CBitFieldMaskBit43 = real.CBitFieldMaskBit43
const CBitFieldMaskBit44 = real.CBitFieldMaskBit44
const CBitFieldMaskBit45 = real.CBitFieldMaskBit45
const CBitFieldMaskBit46 = real.CBitFieldMaskBit46
const CBitFieldMaskBit47 = real.CBitFieldMaskBit47
const CBitFieldMaskBit48 = real.CBitFieldMaskBit48
const CBitFieldMaskBit49 = real.CBitFieldMaskBit49
const CBitFieldMaskBit5 = real.CBitFieldMaskBit5
const CBitFieldMaskBit50 = real.CBitFieldMaskBit50
const CBitFieldMaskBit51 = real.CBitFieldMaskBit51
const CBitFieldMaskBit52 = real.CBitFieldMaskBit52
const CBitFieldMaskBit53 = real.CBitFieldMaskBit53
const CBitFieldMaskBit54 = real.CBitFieldMaskBit54
const CBitFieldMaskBit55 = real.CBitFieldMaskBit55
const CBitFieldMaskBit56 = real.CBitFieldMaskBit56
const CBitFieldMaskBit57 = real.CBitFieldMaskBit57
const CBitFieldMaskBit58 = real.CBitFieldMaskBit58
const CBitFieldMaskBit59 = real.CBitFieldMaskBit59
const CBitFieldMaskBit6 = real.CBitFieldMaskBit6
const CBitFieldMaskBit60 = real.CBitFieldMaskBit60
const CBitFieldMaskBit61 = real.CBitFieldMaskBit61
const CBitFieldMaskBit62 = real.CBitFieldMaskBit62
const CBitFieldMaskBit63 = real.CBitFieldMaskBit63
const CBitFieldMaskBit7 = real.CBitFieldMaskBit7
const CBitFieldMaskBit8 = real.CBitFieldMaskBit8
const CBitFieldMaskBit9 = real.CBitFieldMaskBit9
const CFLUSH = real.CFLUSH
const CGROUP2_SUPER_MAGIC = real.CGROUP2_SUPER_MAGIC
const CGROUPSTATS_CMD_ATTR_FD = real.CGROUPSTATS_CMD_ATTR_FD
const CGROUPSTATS_CMD_ATTR_UNSPEC = real.CGROUPSTATS_CMD_ATTR_UNSPEC
const CGROUPSTATS_CMD_GET = real.CGROUPSTATS_CMD_GET
const CGROUPSTATS_CMD_NEW = real.CGROUPSTATS_CMD_NEW
const CGROUPSTATS_CMD_UNSPEC = real.CGROUPSTATS_CMD_UNSPEC
const CGROUPSTATS_TYPE_CGROUP_STATS = real.CGROUPSTATS_TYPE_CGROUP_STATS
const CGROUPSTATS_TYPE_UNSPEC = real.CGROUPSTATS_TYPE_UNSPEC
const CGROUP_SUPER_MAGIC = real.CGROUP_SUPER_MAGIC

type CGroupStats = real.CGroupStats

const CIBAUD = real.CIBAUD
const CLOCAL = real.CLOCAL
const CLOCK_BOOTTIME = real.CLOCK_BOOTTIME
const CLOCK_BOOTTIME_ALARM = real.CLOCK_BOOTTIME_ALARM
const CLOCK_DEFAULT = real.CLOCK_DEFAULT
const CLOCK_EXT = real.CLOCK_EXT
const CLOCK_INT = real.CLOCK_INT
const CLOCK_MONOTONIC = real.CLOCK_MONOTONIC
const CLOCK_MONOTONIC_COARSE = real.CLOCK_MONOTONIC_COARSE
const CLOCK_MONOTONIC_RAW = real.CLOCK_MONOTONIC_RAW
const CLOCK_PROCESS_CPUTIME_ID = real.CLOCK_PROCESS_CPUTIME_ID
const CLOCK_REALTIME = real.CLOCK_REALTIME
const CLOCK_REALTIME_ALARM = real.CLOCK_REALTIME_ALARM
const CLOCK_REALTIME_COARSE = real.CLOCK_REALTIME_COARSE
const CLOCK_TAI = real.CLOCK_TAI
const CLOCK_THREAD_CPUTIME_ID = real.CLOCK_THREAD_CPUTIME_ID
const CLOCK_TXFROMRX = real.CLOCK_TXFROMRX
const CLOCK_TXINT = real.CLOCK_TXINT
const CLONE_CHILD_CLEARTID = real.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = real.CLONE_CHILD_SETTID
const CLONE_DETACHED = real.CLONE_DETACHED
const CLONE_FILES = real.CLONE_FILES
const CLONE_FS = real.CLONE_FS
const CLONE_IO = real.CLONE_IO
const CLONE_NEWCGROUP = real.CLONE_NEWCGROUP
const CLONE_NEWIPC = real.CLONE_NEWIPC
const CLONE_NEWNET = real.CLONE_NEWNET
const CLONE_NEWNS = real.CLONE_NEWNS
const CLONE_NEWPID = real.CLONE_NEWPID
const CLONE_NEWUSER = real.CLONE_NEWUSER
const CLONE_NEWUTS = real.CLONE_NEWUTS
const CLONE_PARENT = real.CLONE_PARENT
const CLONE_PARENT_SETTID = real.CLONE_PARENT_SETTID
const CLONE_PTRACE = real.CLONE_PTRACE
const CLONE_SETTLS = real.CLONE_SETTLS
const CLONE_SIGHAND = real.CLONE_SIGHAND
const CLONE_SYSVSEM = real.CLONE_SYSVSEM
const CLONE_THREAD = real.CLONE_THREAD
const CLONE_UNTRACED = real.CLONE_UNTRACED
const CLONE_VFORK = real.CLONE_VFORK
const CLONE_VM = real.CLONE_VM
const CMSPAR = real.CMSPAR
const CODA_SUPER_MAGIC = real.CODA_SUPER_MAGIC

type CPUSet = real.CPUSet

const CR0 = real.CR0
const CR1 = real.CR1
const CR2 = real.CR2
const CR3 = real.CR3
const CRAMFS_MAGIC = real.CRAMFS_MAGIC
const CRDLY = real.CRDLY
const CREAD = real.CREAD
const CRTSCTS = real.CRTSCTS
const CS5 = real.CS5
const CS6 = real.CS6
const CS7 = real.CS7
const CS8 = real.CS8
const CSIGNAL = real.CSIGNAL
const CSIZE = real.CSIZE
const CSTART = real.CSTART
const CSTATUS = real.CSTATUS
const CSTOP = real.CSTOP
const CSTOPB = real.CSTOPB
const CSUSP = real.CSUSP
const CTRL_ATTR_FAMILY_ID = real.CTRL_ATTR_FAMILY_ID
const CTRL_ATTR_FAMILY_NAME = real.CTRL_ATTR_FAMILY_NAME
const CTRL_ATTR_HDRSIZE = real.CTRL_ATTR_HDRSIZE
const CTRL_ATTR_MAXATTR = real.CTRL_ATTR_MAXATTR
const CTRL_ATTR_MCAST_GROUPS = real.CTRL_ATTR_MCAST_GROUPS
const CTRL_ATTR_MCAST_GRP_ID = real.CTRL_ATTR_MCAST_GRP_ID
const CTRL_ATTR_MCAST_GRP_NAME = real.CTRL_ATTR_MCAST_GRP_NAME
const CTRL_ATTR_MCAST_GRP_UNSPEC = real.CTRL_ATTR_MCAST_GRP_UNSPEC
const CTRL_ATTR_OPS = real.CTRL_ATTR_OPS
const CTRL_ATTR_OP_FLAGS = real.CTRL_ATTR_OP_FLAGS
const CTRL_ATTR_OP_ID = real.CTRL_ATTR_OP_ID
const CTRL_ATTR_OP_UNSPEC = real.CTRL_ATTR_OP_UNSPEC
const CTRL_ATTR_UNSPEC = real.CTRL_ATTR_UNSPEC
const CTRL_ATTR_VERSION = real.CTRL_ATTR_VERSION
const CTRL_CMD_DELFAMILY = real.CTRL_CMD_DELFAMILY
const CTRL_CMD_DELMCAST_GRP = real.CTRL_CMD_DELMCAST_GRP
const CTRL_CMD_DELOPS = real.CTRL_CMD_DELOPS
const CTRL_CMD_GETFAMILY = real.CTRL_CMD_GETFAMILY
const CTRL_CMD_GETMCAST_GRP = real.CTRL_CMD_GETMCAST_GRP
const CTRL_CMD_GETOPS = real.CTRL_CMD_GETOPS
const CTRL_CMD_NEWFAMILY = real.CTRL_CMD_NEWFAMILY
const CTRL_CMD_NEWMCAST_GRP = real.CTRL_CMD_NEWMCAST_GRP
const CTRL_CMD_NEWOPS = real.CTRL_CMD_NEWOPS
const CTRL_CMD_UNSPEC = real.CTRL_CMD_UNSPEC

type CanFilter = real.CanFilter

var Chdir = real.Chdir
var Chmod = real.Chmod
var Chown = real.Chown
var Chroot = real.Chroot
var Clearenv = real.Clearenv
var ClockGetres = real.ClockGetres
var ClockGettime = real.ClockGettime
var ClockNanosleep = real.ClockNanosleep
var CloseOnExec = real.CloseOnExec
var CmsgLen = real.CmsgLen
var CmsgSpace = real.CmsgSpace

type Cmsghdr = real.Cmsghdr

var Connect = real.Connect
var CopyFileRange = real.CopyFileRange
var Creat = real.Creat

const DAXFS_MAGIC = real.DAXFS_MAGIC
const DEBUGFS_MAGIC = real.DEBUGFS_MAGIC
const DEVPTS_SUPER_MAGIC = real.DEVPTS_SUPER_MAGIC
const DT_BLK = real.DT_BLK
const DT_CHR = real.DT_CHR
const DT_DIR = real.DT_DIR
const DT_FIFO = real.DT_FIFO
const DT_LNK = real.DT_LNK
const DT_REG = real.DT_REG
const DT_SOCK = real.DT_SOCK
const DT_UNKNOWN = real.DT_UNKNOWN
const DT_WHT = real.DT_WHT

var DeleteModule = real.DeleteModule

type Dirent = real.Dirent

var Dup = real.Dup
var Dup2 = real.Dup2
var Dup3 = real.Dup3

const E2BIG = real.E2BIG
const EACCES = real.EACCES
const EADDRINUSE = real.EADDRINUSE
const EADDRNOTAVAIL = real.EADDRNOTAVAIL
const EADV = real.EADV
const EAFNOSUPPORT = real.EAFNOSUPPORT
const EAGAIN = real.EAGAIN
const EALREADY = real.EALREADY
const EBADE = real.EBADE
const EBADF = real.EBADF
const EBADFD = real.EBADFD
const EBADMSG = real.EBADMSG
const EBADR = real.EBADR
const EBADRQC = real.EBADRQC
const EBADSLT = real.EBADSLT
const EBFONT = real.EBFONT
const EBUSY = real.EBUSY
const ECANCELED = real.ECANCELED
const ECHILD = real.ECHILD
const ECHO = real.ECHO
const ECHOCTL = real.ECHOCTL
const ECHOE = real.ECHOE
const ECHOK = real.ECHOK
const ECHOKE = real.ECHOKE
const ECHONL = real.ECHONL
const ECHOPRT = real.ECHOPRT
const ECHRNG = real.ECHRNG
const ECOMM = real.ECOMM
const ECONNABORTED = real.ECONNABORTED
const ECONNREFUSED = real.ECONNREFUSED
const ECONNRESET = real.ECONNRESET
const ECRYPTFS_SUPER_MAGIC = real.ECRYPTFS_SUPER_MAGIC
const EDEADLK = real.EDEADLK
const EDEADLOCK = real.EDEADLOCK
const EDESTADDRREQ = real.EDESTADDRREQ
const EDOM = real.EDOM
const EDOTDOT = real.EDOTDOT
const EDQUOT = real.EDQUOT
const EEXIST = real.EEXIST
const EFAULT = real.EFAULT
const EFBIG = real.EFBIG
const EFD_CLOEXEC = real.EFD_CLOEXEC
const EFD_NONBLOCK = real.EFD_NONBLOCK
const EFD_SEMAPHORE = real.EFD_SEMAPHORE
const EFIVARFS_MAGIC = real.EFIVARFS_MAGIC
const EFS_SUPER_MAGIC = real.EFS_SUPER_MAGIC
const EHOSTDOWN = real.EHOSTDOWN
const EHOSTUNREACH = real.EHOSTUNREACH
const EHWPOISON = real.EHWPOISON
const EIDRM = real.EIDRM
const EILSEQ = real.EILSEQ
const EINPROGRESS = real.EINPROGRESS
const EINTR = real.EINTR
const EINVAL = real.EINVAL
const EIO = real.EIO
const EISCONN = real.EISCONN
const EISDIR = real.EISDIR
const EISNAM = real.EISNAM
const EKEYEXPIRED = real.EKEYEXPIRED
const EKEYREJECTED = real.EKEYREJECTED
const EKEYREVOKED = real.EKEYREVOKED
const EL2HLT = real.EL2HLT
const EL2NSYNC = real.EL2NSYNC
const EL3HLT = real.EL3HLT
const EL3RST = real.EL3RST
const ELIBACC = real.ELIBACC
const ELIBBAD = real.ELIBBAD
const ELIBEXEC = real.ELIBEXEC
const ELIBMAX = real.ELIBMAX
const ELIBSCN = real.ELIBSCN
const ELNRNG = real.ELNRNG
const ELOOP = real.ELOOP
const EMEDIUMTYPE = real.EMEDIUMTYPE
const EMFILE = real.EMFILE
const EMLINK = real.EMLINK
const EMSGSIZE = real.EMSGSIZE
const EMULTIHOP = real.EMULTIHOP
const ENAMETOOLONG = real.ENAMETOOLONG
const ENAVAIL = real.ENAVAIL
const ENCODING_DEFAULT = real.ENCODING_DEFAULT
const ENCODING_FM_MARK = real.ENCODING_FM_MARK
const ENCODING_FM_SPACE = real.ENCODING_FM_SPACE
const ENCODING_MANCHESTER = real.ENCODING_MANCHESTER
const ENCODING_NRZ = real.ENCODING_NRZ
const ENCODING_NRZI = real.ENCODING_NRZI
const ENETDOWN = real.ENETDOWN
const ENETRESET = real.ENETRESET
const ENETUNREACH = real.ENETUNREACH
const ENFILE = real.ENFILE
const ENOANO = real.ENOANO
const ENOBUFS = real.ENOBUFS
const ENOCSI = real.ENOCSI
const ENODATA = real.ENODATA
const ENODEV = real.ENODEV
const ENOENT = real.ENOENT
const ENOEXEC = real.ENOEXEC
const ENOKEY = real.ENOKEY
const ENOLCK = real.ENOLCK
const ENOLINK = real.ENOLINK
const ENOMEDIUM = real.ENOMEDIUM
const ENOMEM = real.ENOMEM
const ENOMSG = real.ENOMSG
const ENONET = real.ENONET
const ENOPKG = real.ENOPKG
const ENOPROTOOPT = real.ENOPROTOOPT
const ENOSPC = real.ENOSPC
const ENOSR = real.ENOSR
const ENOSTR = real.ENOSTR
const ENOSYS = real.ENOSYS
const ENOTBLK = real.ENOTBLK
const ENOTCONN = real.ENOTCONN
const ENOTDIR = real.ENOTDIR
const ENOTEMPTY = real.ENOTEMPTY
const ENOTNAM = real.ENOTNAM
const ENOTRECOVERABLE = real.ENOTRECOVERABLE
const ENOTSOCK = real.ENOTSOCK
const ENOTSUP = real.ENOTSUP
const ENOTTY = real.ENOTTY
const ENOTUNIQ = real.ENOTUNIQ
const ENXIO = real.ENXIO
const EOPNOTSUPP = real.EOPNOTSUPP
const EOVERFLOW = real.EOVERFLOW
const EOWNERDEAD = real.EOWNERDEAD
const EPERM = real.EPERM
const EPFNOSUPPORT = real.EPFNOSUPPORT
const EPIPE = real.EPIPE
const EPOLLERR = real.EPOLLERR
const EPOLLET = real.EPOLLET
const EPOLLEXCLUSIVE = real.EPOLLEXCLUSIVE
const EPOLLHUP = real.EPOLLHUP
const EPOLLIN = real.EPOLLIN
const EPOLLMSG = real.EPOLLMSG
const EPOLLONESHOT = real.EPOLLONESHOT
const EPOLLOUT = real.EPOLLOUT
const EPOLLPRI = real.EPOLLPRI
const EPOLLRDBAND = real.EPOLLRDBAND
const EPOLLRDHUP = real.EPOLLRDHUP
const EPOLLRDNORM = real.EPOLLRDNORM
const EPOLLWAKEUP = real.EPOLLWAKEUP
const EPOLLWRBAND = real.EPOLLWRBAND
const EPOLLWRNORM = real.EPOLLWRNORM
const EPOLL_CLOEXEC = real.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = real.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = real.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = real.EPOLL_CTL_MOD
const EPROTO = real.EPROTO
const EPROTONOSUPPORT = real.EPROTONOSUPPORT
const EPROTOTYPE = real.EPROTOTYPE
const ERANGE = real.ERANGE
const EREMCHG = real.EREMCHG
const EREMOTE = real.EREMOTE
const EREMOTEIO = real.EREMOTEIO
const ERESTART = real.ERESTART
const ERFKILL = real.ERFKILL
const EROFS = real.EROFS
const ESHUTDOWN = real.ESHUTDOWN
const ESOCKTNOSUPPORT = real.ESOCKTNOSUPPORT
const ESPIPE = real.ESPIPE
const ESRCH = real.ESRCH
const ESRMNT = real.ESRMNT
const ESTALE = real.ESTALE
const ESTRPIPE = real.ESTRPIPE
const ETH_P_1588 = real.ETH_P_1588
const ETH_P_8021AD = real.ETH_P_8021AD
const ETH_P_8021AH = real.ETH_P_8021AH
const ETH_P_8021Q = real.ETH_P_8021Q
const ETH_P_80221 = real.ETH_P_80221
const ETH_P_802_2 = real.ETH_P_802_2
const ETH_P_802_3 = real.ETH_P_802_3
const ETH_P_802_3_MIN = real.ETH_P_802_3_MIN
const ETH_P_802_EX1 = real.ETH_P_802_EX1
const ETH_P_AARP = real.ETH_P_AARP
const ETH_P_AF_IUCV = real.ETH_P_AF_IUCV
const ETH_P_ALL = real.ETH_P_ALL
const ETH_P_AOE = real.ETH_P_AOE
const ETH_P_ARCNET = real.ETH_P_ARCNET
const ETH_P_ARP = real.ETH_P_ARP
const ETH_P_ATALK = real.ETH_P_ATALK
const ETH_P_ATMFATE = real.ETH_P_ATMFATE
const ETH_P_ATMMPOA = real.ETH_P_ATMMPOA
const ETH_P_AX25 = real.ETH_P_AX25
const ETH_P_BATMAN = real.ETH_P_BATMAN
const ETH_P_BPQ = real.ETH_P_BPQ
const ETH_P_CAIF = real.ETH_P_CAIF
const ETH_P_CAN = real.ETH_P_CAN
const ETH_P_CANFD = real.ETH_P_CANFD
const ETH_P_CONTROL = real.ETH_P_CONTROL
const ETH_P_CUST = real.ETH_P_CUST
const ETH_P_DDCMP = real.ETH_P_DDCMP
const ETH_P_DEC = real.ETH_P_DEC
const ETH_P_DIAG = real.ETH_P_DIAG
const ETH_P_DNA_DL = real.ETH_P_DNA_DL
const ETH_P_DNA_RC = real.ETH_P_DNA_RC
const ETH_P_DNA_RT = real.ETH_P_DNA_RT
const ETH_P_DSA = real.ETH_P_DSA
const ETH_P_ECONET = real.ETH_P_ECONET
const ETH_P_EDSA = real.ETH_P_EDSA
const ETH_P_ERSPAN = real.ETH_P_ERSPAN
const ETH_P_ERSPAN2 = real.ETH_P_ERSPAN2
const ETH_P_FCOE = real.ETH_P_FCOE
const ETH_P_FIP = real.ETH_P_FIP
const ETH_P_HDLC = real.ETH_P_HDLC
const ETH_P_HSR = real.ETH_P_HSR
const ETH_P_IBOE = real.ETH_P_IBOE
const ETH_P_IEEE802154 = real.ETH_P_IEEE802154
const ETH_P_IEEEPUP = real.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = real.ETH_P_IEEEPUPAT
const ETH_P_IFE = real.ETH_P_IFE
const ETH_P_IP = real.ETH_P_IP
const ETH_P_IPV6 = real.ETH_P_IPV6
const ETH_P_IPX = real.ETH_P_IPX
const ETH_P_IRDA = real.ETH_P_IRDA
const ETH_P_LAT = real.ETH_P_LAT
const ETH_P_LINK_CTL = real.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = real.ETH_P_LOCALTALK
const ETH_P_LOOP = real.ETH_P_LOOP
const ETH_P_LOOPBACK = real.ETH_P_LOOPBACK
const ETH_P_MACSEC = real.ETH_P_MACSEC
const ETH_P_MAP = real.ETH_P_MAP
const ETH_P_MOBITEX = real.ETH_P_MOBITEX
const ETH_P_MPLS_MC = real.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = real.ETH_P_MPLS_UC
const ETH_P_MVRP = real.ETH_P_MVRP
const ETH_P_NCSI = real.ETH_P_NCSI
const ETH_P_NSH = real.ETH_P_NSH
const ETH_P_PAE = real.ETH_P_PAE
const ETH_P_PAUSE = real.ETH_P_PAUSE
const ETH_P_PHONET = real.ETH_P_PHONET
const ETH_P_PPPTALK = real.ETH_P_PPPTALK
const ETH_P_PPP_DISC = real.ETH_P_PPP_DISC
const ETH_P_PPP_MP = real.ETH_P_PPP_MP
const ETH_P_PPP_SES = real.ETH_P_PPP_SES
const ETH_P_PREAUTH = real.ETH_P_PREAUTH
const ETH_P_PRP = real.ETH_P_PRP
const ETH_P_PUP = real.ETH_P_PUP
const ETH_P_PUPAT = real.ETH_P_PUPAT
const ETH_P_QINQ1 = real.ETH_P_QINQ1
const ETH_P_QINQ2 = real.ETH_P_QINQ2
const ETH_P_QINQ3 = real.ETH_P_QINQ3
const ETH_P_RARP = real.ETH_P_RARP
const ETH_P_SCA = real.ETH_P_SCA
const ETH_P_SLOW = real.ETH_P_SLOW
const ETH_P_SNAP = real.ETH_P_SNAP
const ETH_P_TDLS = real.ETH_P_TDLS
const ETH_P_TEB = real.ETH_P_TEB
const ETH_P_TIPC = real.ETH_P_TIPC
const ETH_P_TRAILER = real.ETH_P_TRAILER
const ETH_P_TR_802_2 = real.ETH_P_TR_802_2
const ETH_P_TSN = real.ETH_P_TSN
const ETH_P_WAN_PPP = real.ETH_P_WAN_PPP
const ETH_P_WCCP = real.ETH_P_WCCP
const ETH_P_X25 = real.ETH_P_X25
const ETH_P_XDSA = real.ETH_P_XDSA
const ETIME = real.ETIME
const ETIMEDOUT = real.ETIMEDOUT
const ETOOMANYREFS = real.ETOOMANYREFS
const ETXTBSY = real.ETXTBSY
const EUCLEAN = real.EUCLEAN
const EUNATCH = real.EUNATCH
const EUSERS = real.EUSERS
const EWOULDBLOCK = real.EWOULDBLOCK
const EXABYTE_ENABLE_NEST = real.EXABYTE_ENABLE_NEST
const EXDEV = real.EXDEV
const EXFULL = real.EXFULL
const EXT2_SUPER_MAGIC = real.EXT2_SUPER_MAGIC
const EXT3_SUPER_MAGIC = real.EXT3_SUPER_MAGIC
const EXT4_SUPER_MAGIC = real.EXT4_SUPER_MAGIC
const EXTA = real.EXTA
const EXTB = real.EXTB
const EXTPROC = real.EXTPROC

var Environ = real.Environ
var EpollCreate = real.EpollCreate
var EpollCreate1 = real.EpollCreate1
var EpollCtl = real.EpollCtl

type EpollEvent = real.EpollEvent

var EpollWait = real.EpollWait

type Errno = real.Errno

var ErrnoName = real.ErrnoName
var Eventfd = real.Eventfd
var Exec = real.Exec

const F2FS_SUPER_MAGIC = real.F2FS_SUPER_MAGIC
const FADV_DONTNEED = real.FADV_DONTNEED
const FADV_NOREUSE = real.FADV_NOREUSE
const FADV_NORMAL = real.FADV_NORMAL
const FADV_RANDOM = real.FADV_RANDOM
const FADV_SEQUENTIAL = real.FADV_SEQUENTIAL
const FADV_WILLNEED = real.FADV_WILLNEED
const FALLOC_FL_COLLAPSE_RANGE = real.FALLOC_FL_COLLAPSE_RANGE
const FALLOC_FL_INSERT_RANGE = real.FALLOC_FL_INSERT_RANGE
const FALLOC_FL_KEEP_SIZE = real.FALLOC_FL_KEEP_SIZE
const FALLOC_FL_NO_HIDE_STALE = real.FALLOC_FL_NO_HIDE_STALE
const FALLOC_FL_PUNCH_HOLE = real.FALLOC_FL_PUNCH_HOLE
const FALLOC_FL_UNSHARE_RANGE = real.FALLOC_FL_UNSHARE_RANGE
const FALLOC_FL_ZERO_RANGE = real.FALLOC_FL_ZERO_RANGE
const FANOTIFY_METADATA_VERSION = real.FANOTIFY_METADATA_VERSION
const FAN_ACCESS = real.FAN_ACCESS
const FAN_ACCESS_PERM = real.FAN_ACCESS_PERM
const FAN_ALLOW = real.FAN_ALLOW
const FAN_ALL_CLASS_BITS = real.FAN_ALL_CLASS_BITS
const FAN_ALL_EVENTS = real.FAN_ALL_EVENTS
const FAN_ALL_INIT_FLAGS = real.FAN_ALL_INIT_FLAGS
const FAN_ALL_MARK_FLAGS = real.FAN_ALL_MARK_FLAGS
const FAN_ALL_OUTGOING_EVENTS = real.FAN_ALL_OUTGOING_EVENTS
const FAN_ALL_PERM_EVENTS = real.FAN_ALL_PERM_EVENTS
const FAN_AUDIT = real.FAN_AUDIT
const FAN_CLASS_CONTENT = real.FAN_CLASS_CONTENT
const FAN_CLASS_NOTIF = real.FAN_CLASS_NOTIF
const FAN_CLASS_PRE_CONTENT = real.FAN_CLASS_PRE_CONTENT
const FAN_CLOEXEC = real.FAN_CLOEXEC
const FAN_CLOSE = real.FAN_CLOSE
const FAN_CLOSE_NOWRITE = real.FAN_CLOSE_NOWRITE
const FAN_CLOSE_WRITE = real.FAN_CLOSE_WRITE
const FAN_DENY = real.FAN_DENY
const FAN_ENABLE_AUDIT = real.FAN_ENABLE_AUDIT
const FAN_EVENT_METADATA_LEN = real.FAN_EVENT_METADATA_LEN
const FAN_EVENT_ON_CHILD = real.FAN_EVENT_ON_CHILD
const FAN_MARK_ADD = real.FAN_MARK_ADD
const FAN_MARK_DONT_FOLLOW = real.FAN_MARK_DONT_FOLLOW
const FAN_MARK_FILESYSTEM = real.FAN_MARK_FILESYSTEM
const FAN_MARK_FLUSH = real.FAN_MARK_FLUSH
const FAN_MARK_IGNORED_MASK = real.FAN_MARK_IGNORED_MASK
const FAN_MARK_IGNORED_SURV_MODIFY = real.FAN_MARK_IGNORED_SURV_MODIFY
const FAN_MARK_INODE = real.FAN_MARK_INODE
const FAN_MARK_MOUNT = real.FAN_MARK_MOUNT
const FAN_MARK_ONLYDIR = real.FAN_MARK_ONLYDIR
const FAN_MARK_REMOVE = real.FAN_MARK_REMOVE
const FAN_MODIFY = real.FAN_MODIFY
const FAN_NOFD = real.FAN_NOFD
const FAN_NONBLOCK = real.FAN_NONBLOCK
const FAN_ONDIR = real.FAN_ONDIR
const FAN_OPEN = real.FAN_OPEN
const FAN_OPEN_EXEC = real.FAN_OPEN_EXEC
const FAN_OPEN_EXEC_PERM = real.FAN_OPEN_EXEC_PERM
const FAN_OPEN_PERM = real.FAN_OPEN_PERM
const FAN_Q_OVERFLOW = real.FAN_Q_OVERFLOW
const FAN_REPORT_TID = real.FAN_REPORT_TID
const FAN_UNLIMITED_MARKS = real.FAN_UNLIMITED_MARKS
const FAN_UNLIMITED_QUEUE = real.FAN_UNLIMITED_QUEUE
const FD_CLOEXEC = real.FD_CLOEXEC
const FD_SETSIZE = real.FD_SETSIZE
const FF0 = real.FF0
const FF1 = real.FF1
const FFDLY = real.FFDLY
const FLUSHO = real.FLUSHO
const FP_XSTATE_MAGIC2 = real.FP_XSTATE_MAGIC2
const FS_ENCRYPTION_MODE_ADIANTUM = real.FS_ENCRYPTION_MODE_ADIANTUM
const FS_ENCRYPTION_MODE_AES_128_CBC = real.FS_ENCRYPTION_MODE_AES_128_CBC
const FS_ENCRYPTION_MODE_AES_128_CTS = real.FS_ENCRYPTION_MODE_AES_128_CTS
const FS_ENCRYPTION_MODE_AES_256_CBC = real.FS_ENCRYPTION_MODE_AES_256_CBC
const FS_ENCRYPTION_MODE_AES_256_CTS = real.FS_ENCRYPTION_MODE_AES_256_CTS
const FS_ENCRYPTION_MODE_AES_256_GCM = real.FS_ENCRYPTION_MODE_AES_256_GCM
const FS_ENCRYPTION_MODE_AES_256_XTS = real.FS_ENCRYPTION_MODE_AES_256_XTS
const FS_ENCRYPTION_MODE_INVALID = real.FS_ENCRYPTION_MODE_INVALID
const FS_ENCRYPTION_MODE_SPECK128_256_CTS = real.FS_ENCRYPTION_MODE_SPECK128_256_CTS
const FS_ENCRYPTION_MODE_SPECK128_256_XTS = real.FS_ENCRYPTION_MODE_SPECK128_256_XTS
const FS_IOC_GET_ENCRYPTION_POLICY = real.FS_IOC_GET_ENCRYPTION_POLICY
const FS_IOC_GET_ENCRYPTION_PWSALT = real.FS_IOC_GET_ENCRYPTION_PWSALT
const FS_IOC_SET_ENCRYPTION_POLICY = real.FS_IOC_SET_ENCRYPTION_POLICY
const FS_KEY_DESCRIPTOR_SIZE = real.FS_KEY_DESCRIPTOR_SIZE
const FS_KEY_DESC_PREFIX = real.FS_KEY_DESC_PREFIX
const FS_KEY_DESC_PREFIX_SIZE = real.FS_KEY_DESC_PREFIX_SIZE
const FS_MAX_KEY_SIZE = real.FS_MAX_KEY_SIZE
const FS_POLICY_FLAGS_PAD_16 = real.FS_POLICY_FLAGS_PAD_16
const FS_POLICY_FLAGS_PAD_32 = real.FS_POLICY_FLAGS_PAD_32
const FS_POLICY_FLAGS_PAD_4 = real.FS_POLICY_FLAGS_PAD_4
const FS_POLICY_FLAGS_PAD_8 = real.FS_POLICY_FLAGS_PAD_8
const FS_POLICY_FLAGS_PAD_MASK = real.FS_POLICY_FLAGS_PAD_MASK
const FS_POLICY_FLAGS_VALID = real.FS_POLICY_FLAGS_VALID
const FUTEXFS_SUPER_MAGIC = real.FUTEXFS_SUPER_MAGIC
const F_ADD_SEALS = real.F_ADD_SEALS
const F_DUPFD = real.F_DUPFD
const F_DUPFD_CLOEXEC = real.F_DUPFD_CLOEXEC
const F_EXLCK = real.F_EXLCK
const F_GETFD = real.F_GETFD
const F_GETFL = real.F_GETFL
const F_GETLEASE = real.F_GETLEASE
const F_GETLK = real.F_GETLK
const F_GETLK64 = real.F_GETLK64
const F_GETOWN = real.F_GETOWN
const F_GETOWN_EX = real.F_GETOWN_EX
const F_GETPIPE_SZ = real.F_GETPIPE_SZ
const F_GETSIG = real.F_GETSIG
const F_GET_FILE_RW_HINT = real.F_GET_FILE_RW_HINT
const F_GET_RW_HINT = real.F_GET_RW_HINT
const F_GET_SEALS = real.F_GET_SEALS
const F_LOCK = real.F_LOCK
const F_NOTIFY = real.F_NOTIFY
const F_OFD_GETLK = real.F_OFD_GETLK
const F_OFD_SETLK = real.F_OFD_SETLK
const F_OFD_SETLKW = real.F_OFD_SETLKW
const F_OK = real.F_OK
const F_RDLCK = real.F_RDLCK
const F_SEAL_GROW = real.F_SEAL_GROW
const F_SEAL_SEAL = real.F_SEAL_SEAL
const F_SEAL_SHRINK = real.F_SEAL_SHRINK
const F_SEAL_WRITE = real.F_SEAL_WRITE
const F_SETFD = real.F_SETFD
const F_SETFL = real.F_SETFL
const F_SETLEASE = real.F_SETLEASE
const F_SETLK = real.F_SETLK
const F_SETLK64 = real.F_SETLK64
const F_SETLKW = real.F_SETLKW
const F_SETLKW64 = real.F_SETLKW64
const F_SETOWN = real.F_SETOWN
const F_SETOWN_EX = real.F_SETOWN_EX
const F_SETPIPE_SZ = real.F_SETPIPE_SZ
const F_SETSIG = real.F_SETSIG
const F_SET_FILE_RW_HINT = real.F_SET_FILE_RW_HINT
const F_SET_RW_HINT = real.F_SET_RW_HINT
const F_SHLCK = real.F_SHLCK
const F_TEST = real.F_TEST
const F_TLOCK = real.F_TLOCK
const F_ULOCK = real.F_ULOCK
const F_UNLCK = real.F_UNLCK
const F_WRLCK = real.F_WRLCK

var Faccessat = real.Faccessat
var Fadvise = real.Fadvise

type FanotifyEventMetadata = real.FanotifyEventMetadata

var FanotifyInit = real.FanotifyInit
var FanotifyMark = real.FanotifyMark

type FanotifyResponse = real.FanotifyResponse

var Fchdir = real.Fchdir
var Fchmod = real.Fchmod
var Fchmodat = real.Fchmodat
var Fchown = real.Fchown
var Fchownat = real.Fchownat
var FcntlFlock = real.FcntlFlock
var FcntlInt = real.FcntlInt

type FdSet = real.FdSet

var Fgetxattr = real.Fgetxattr
var FinitModule = real.FinitModule
var Flistxattr = real.Flistxattr

type Flock_t = real.Flock_t

var Fremovexattr = real.Fremovexattr

type FscryptKey = real.FscryptKey
type FscryptPolicy = real.FscryptPolicy

var Fsetxattr = real.Fsetxattr

type Fsid = real.Fsid

var Fstat = real.Fstat
var Fstatat = real.Fstatat
var Fstatfs = real.Fstatfs
var Ftruncate = real.Ftruncate
var Futimes = real.Futimes
var Futimesat = real.Futimesat

const GENL_ADMIN_PERM = real.GENL_ADMIN_PERM
const GENL_CMD_CAP_DO = real.GENL_CMD_CAP_DO
const GENL_CMD_CAP_DUMP = real.GENL_CMD_CAP_DUMP
const GENL_CMD_CAP_HASPOL = real.GENL_CMD_CAP_HASPOL
const GENL_HDRLEN = real.GENL_HDRLEN
const GENL_ID_CTRL = real.GENL_ID_CTRL
const GENL_ID_PMCRAID = real.GENL_ID_PMCRAID
const GENL_ID_VFS_DQUOT = real.GENL_ID_VFS_DQUOT
const GENL_MAX_ID = real.GENL_MAX_ID
const GENL_MIN_ID = real.GENL_MIN_ID
const GENL_NAMSIZ = real.GENL_NAMSIZ
const GENL_START_ALLOC = real.GENL_START_ALLOC
const GENL_UNS_ADMIN_PERM = real.GENL_UNS_ADMIN_PERM
const GRND_NONBLOCK = real.GRND_NONBLOCK
const GRND_RANDOM = real.GRND_RANDOM

type Genlmsghdr = real.Genlmsghdr

var Getcwd = real.Getcwd
var Getdents = real.Getdents
var Getegid = real.Getegid
var Getenv = real.Getenv
var Geteuid = real.Geteuid
var Getgid = real.Getgid
var Getgroups = real.Getgroups
var Getpagesize = real.Getpagesize
var Getpeername = real.Getpeername
var Getpgid = real.Getpgid
var Getpgrp = real.Getpgrp
var Getppid = real.Getppid
var Getpriority = real.Getpriority
var Getrandom = real.Getrandom
var Getrlimit = real.Getrlimit
var Getrusage = real.Getrusage
var Getsid = real.Getsid
var Getsockname = real.Getsockname
var GetsockoptByte = real.GetsockoptByte
var GetsockoptICMPv6Filter = real.GetsockoptICMPv6Filter
var GetsockoptIPMreq = real.GetsockoptIPMreq
var GetsockoptIPMreqn = real.GetsockoptIPMreqn
var GetsockoptIPv6MTUInfo = real.GetsockoptIPv6MTUInfo
var GetsockoptIPv6Mreq = real.GetsockoptIPv6Mreq
var GetsockoptInet4Addr = real.GetsockoptInet4Addr
var GetsockoptInt = real.GetsockoptInt
var GetsockoptLinger = real.GetsockoptLinger
var GetsockoptString = real.GetsockoptString
var GetsockoptTCPInfo = real.GetsockoptTCPInfo
var GetsockoptTimeval = real.GetsockoptTimeval
var GetsockoptTpacketStats = real.GetsockoptTpacketStats
var GetsockoptTpacketStatsV3 = real.GetsockoptTpacketStatsV3
var GetsockoptUcred = real.GetsockoptUcred
var Gettid = real.Gettid
var Gettimeofday = real.Gettimeofday
var Getuid = real.Getuid
var Getwd = real.Getwd
var Getxattr = real.Getxattr

const HCI_CHANNEL_CONTROL = real.HCI_CHANNEL_CONTROL
const HCI_CHANNEL_MONITOR = real.HCI_CHANNEL_MONITOR
const HCI_CHANNEL_RAW = real.HCI_CHANNEL_RAW
const HCI_CHANNEL_USER = real.HCI_CHANNEL_USER

type HDDriveCmdHdr = real.HDDriveCmdHdr
type HDDriveID = real.HDDriveID
type HDGeometry = real.HDGeometry

const HDIO_DRIVE_CMD = real.HDIO_DRIVE_CMD
const HDIO_DRIVE_CMD_AEB = real.HDIO_DRIVE_CMD_AEB
const HDIO_DRIVE_CMD_HDR_SIZE = real.HDIO_DRIVE_CMD_HDR_SIZE
const HDIO_DRIVE_HOB_HDR_SIZE = real.HDIO_DRIVE_HOB_HDR_SIZE
const HDIO_DRIVE_RESET = real.HDIO_DRIVE_RESET
const HDIO_DRIVE_TASK = real.HDIO_DRIVE_TASK
const HDIO_DRIVE_TASKFILE = real.HDIO_DRIVE_TASKFILE
const HDIO_DRIVE_TASK_HDR_SIZE = real.HDIO_DRIVE_TASK_HDR_SIZE
const HDIO_GETGEO = real.HDIO_GETGEO
const HDIO_GET_32BIT = real.HDIO_GET_32BIT
const HDIO_GET_ACOUSTIC = real.HDIO_GET_ACOUSTIC
const HDIO_GET_ADDRESS = real.HDIO_GET_ADDRESS
const HDIO_GET_BUSSTATE = real.HDIO_GET_BUSSTATE
const HDIO_GET_DMA = real.HDIO_GET_DMA
const HDIO_GET_IDENTITY = real.HDIO_GET_IDENTITY
const HDIO_GET_KEEPSETTINGS = real.HDIO_GET_KEEPSETTINGS
const HDIO_GET_MULTCOUNT = real.HDIO_GET_MULTCOUNT
const HDIO_GET_NICE = real.HDIO_GET_NICE
const HDIO_GET_NOWERR = real.HDIO_GET_NOWERR
const HDIO_GET_QDMA = real.HDIO_GET_QDMA
const HDIO_GET_UNMASKINTR = real.HDIO_GET_UNMASKINTR
const HDIO_GET_WCACHE = real.HDIO_GET_WCACHE
const HDIO_OBSOLETE_IDENTITY = real.HDIO_OBSOLETE_IDENTITY
const HDIO_SCAN_HWIF = real.HDIO_SCAN_HWIF
const HDIO_SET_32BIT = real.HDIO_SET_32BIT
const HDIO_SET_ACOUSTIC = real.HDIO_SET_ACOUSTIC
const HDIO_SET_ADDRESS = real.HDIO_SET_ADDRESS
const HDIO_SET_BUSSTATE = real.HDIO_SET_BUSSTATE
const HDIO_SET_DMA = real.HDIO_SET_DMA
const HDIO_SET_KEEPSETTINGS = real.HDIO_SET_KEEPSETTINGS
const HDIO_SET_MULTCOUNT = real.HDIO_SET_MULTCOUNT
const HDIO_SET_NICE = real.HDIO_SET_NICE
const HDIO_SET_NOWERR = real.HDIO_SET_NOWERR
const HDIO_SET_PIO_MODE = real.HDIO_SET_PIO_MODE
const HDIO_SET_QDMA = real.HDIO_SET_QDMA
const HDIO_SET_UNMASKINTR = real.HDIO_SET_UNMASKINTR
const HDIO_SET_WCACHE = real.HDIO_SET_WCACHE
const HDIO_SET_XFER = real.HDIO_SET_XFER
const HDIO_TRISTATE_HWIF = real.HDIO_TRISTATE_HWIF
const HDIO_UNREGISTER_HWIF = real.HDIO_UNREGISTER_HWIF
const HOSTFS_SUPER_MAGIC = real.HOSTFS_SUPER_MAGIC
const HPFS_SUPER_MAGIC = real.HPFS_SUPER_MAGIC
const HUGETLBFS_MAGIC = real.HUGETLBFS_MAGIC
const HUPCL = real.HUPCL
const IBSHIFT = real.IBSHIFT
const ICANON = real.ICANON
const ICMPV6_FILTER = real.ICMPV6_FILTER

type ICMPv6Filter = real.ICMPv6Filter

const ICRNL = real.ICRNL
const IEXTEN = real.IEXTEN
const IFA_ADDRESS = real.IFA_ADDRESS
const IFA_ANYCAST = real.IFA_ANYCAST
const IFA_BROADCAST = real.IFA_BROADCAST
const IFA_CACHEINFO = real.IFA_CACHEINFO
const IFA_F_DADFAILED = real.IFA_F_DADFAILED
const IFA_F_DEPRECATED = real.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = real.IFA_F_HOMEADDRESS
const IFA_F_MANAGETEMPADDR = real.IFA_F_MANAGETEMPADDR
const IFA_F_MCAUTOJOIN = real.IFA_F_MCAUTOJOIN
const IFA_F_NODAD = real.IFA_F_NODAD
const IFA_F_NOPREFIXROUTE = real.IFA_F_NOPREFIXROUTE
const IFA_F_OPTIMISTIC = real.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = real.IFA_F_PERMANENT
const IFA_F_SECONDARY = real.IFA_F_SECONDARY
const IFA_F_STABLE_PRIVACY = real.IFA_F_STABLE_PRIVACY
const IFA_F_TEMPORARY = real.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = real.IFA_F_TENTATIVE
const IFA_LABEL = real.IFA_LABEL
const IFA_LOCAL = real.IFA_LOCAL
const IFA_MAX = real.IFA_MAX
const IFA_MULTICAST = real.IFA_MULTICAST
const IFA_UNSPEC = real.IFA_UNSPEC
const IFF_ALLMULTI = real.IFF_ALLMULTI
const IFF_ATTACH_QUEUE = real.IFF_ATTACH_QUEUE
const IFF_AUTOMEDIA = real.IFF_AUTOMEDIA
const IFF_BROADCAST = real.IFF_BROADCAST
const IFF_DEBUG = real.IFF_DEBUG
const IFF_DETACH_QUEUE = real.IFF_DETACH_QUEUE
const IFF_DORMANT = real.IFF_DORMANT
const IFF_DYNAMIC = real.IFF_DYNAMIC
const IFF_ECHO = real.IFF_ECHO
const IFF_LOOPBACK = real.IFF_LOOPBACK
const IFF_LOWER_UP = real.IFF_LOWER_UP
const IFF_MASTER = real.IFF_MASTER
const IFF_MULTICAST = real.IFF_MULTICAST
const IFF_MULTI_QUEUE = real.IFF_MULTI_QUEUE
const IFF_NAPI = real.IFF_NAPI
const IFF_NAPI_FRAGS = real.IFF_NAPI_FRAGS
const IFF_NOARP = real.IFF_NOARP
const IFF_NOFILTER = real.IFF_NOFILTER
const IFF_NOTRAILERS = real.IFF_NOTRAILERS
const IFF_NO_PI = real.IFF_NO_PI
const IFF_ONE_QUEUE = real.IFF_ONE_QUEUE
const IFF_PERSIST = real.IFF_PERSIST
const IFF_POINTOPOINT = real.IFF_POINTOPOINT
const IFF_PORTSEL = real.IFF_PORTSEL
const IFF_PROMISC = real.IFF_PROMISC
const IFF_RUNNING = real.IFF_RUNNING
const IFF_SLAVE = real.IFF_SLAVE
const IFF_TAP = real.IFF_TAP
const IFF_TUN = real.IFF_TUN
const IFF_TUN_EXCL = real.IFF_TUN_EXCL
const IFF_UP = real.IFF_UP
const IFF_VNET_HDR = real.IFF_VNET_HDR
const IFF_VOLATILE = real.IFF_VOLATILE
const IFLA_ADDRESS = real.IFLA_ADDRESS
const IFLA_AF_SPEC = real.IFLA_AF_SPEC
const IFLA_BROADCAST = real.IFLA_BROADCAST
const IFLA_CARRIER = real.IFLA_CARRIER
const IFLA_CARRIER_CHANGES = real.IFLA_CARRIER_CHANGES
const IFLA_COST = real.IFLA_COST
const IFLA_EVENT = real.IFLA_EVENT
const IFLA_EXT_MASK = real.IFLA_EXT_MASK
const IFLA_GROUP = real.IFLA_GROUP
const IFLA_GSO_MAX_SEGS = real.IFLA_GSO_MAX_SEGS
const IFLA_GSO_MAX_SIZE = real.IFLA_GSO_MAX_SIZE
const IFLA_IFALIAS = real.IFLA_IFALIAS
const IFLA_IFNAME = real.IFLA_IFNAME
const IFLA_IF_NETNSID = real.IFLA_IF_NETNSID
const IFLA_INFO_KIND = real.IFLA_INFO_KIND
const IFLA_LINK = real.IFLA_LINK
const IFLA_LINKINFO = real.IFLA_LINKINFO
const IFLA_LINKMODE = real.IFLA_LINKMODE
const IFLA_LINK_NETNSID = real.IFLA_LINK_NETNSID
const IFLA_MAP = real.IFLA_MAP
const IFLA_MASTER = real.IFLA_MASTER
const IFLA_MAX = real.IFLA_MAX
const IFLA_MTU = real.IFLA_MTU
const IFLA_NET_NS_FD = real.IFLA_NET_NS_FD
const IFLA_NET_NS_PID = real.IFLA_NET_NS_PID
const IFLA_NEW_NETNSID = real.IFLA_NEW_NETNSID
const IFLA_NUM_RX_QUEUES = real.IFLA_NUM_RX_QUEUES
const IFLA_NUM_TX_QUEUES = real.IFLA_NUM_TX_QUEUES
const IFLA_NUM_VF = real.IFLA_NUM_VF
const IFLA_OPERSTATE = real.IFLA_OPERSTATE
const IFLA_PAD = real.IFLA_PAD
const IFLA_PHYS_PORT_ID = real.IFLA_PHYS_PORT_ID
const IFLA_PHYS_PORT_NAME = real.IFLA_PHYS_PORT_NAME
const IFLA_PHYS_SWITCH_ID = real.IFLA_PHYS_SWITCH_ID
const IFLA_PORT_SELF = real.IFLA_PORT_SELF
const IFLA_PRIORITY = real.IFLA_PRIORITY
const IFLA_PROMISCUITY = real.IFLA_PROMISCUITY
const IFLA_PROTINFO = real.IFLA_PROTINFO
const IFLA_PROTO_DOWN = real.IFLA_PROTO_DOWN
const IFLA_QDISC = real.IFLA_QDISC
const IFLA_STATS = real.IFLA_STATS
const IFLA_STATS64 = real.IFLA_STATS64
const IFLA_TXQLEN = real.IFLA_TXQLEN
const IFLA_UNSPEC = real.IFLA_UNSPEC
const IFLA_VFINFO_LIST = real.IFLA_VFINFO_LIST
const IFLA_VF_PORTS = real.IFLA_VF_PORTS
const IFLA_WEIGHT = real.IFLA_WEIGHT
const IFLA_WIRELESS = real.IFLA_WIRELESS
const IFLA_XDP = real.IFLA_XDP
const IFNAMSIZ = real.IFNAMSIZ
const IGNBRK = real.IGNBRK
const IGNCR = real.IGNCR
const IGNPAR = real.IGNPAR
const IMAXBEL = real.IMAXBEL
const INLCR = real.INLCR
const INPCK = real.INPCK
const IN_ACCESS = real.IN_ACCESS
const IN_ALL_EVENTS = real.IN_ALL_EVENTS
const IN_ATTRIB = real.IN_ATTRIB
const IN_CLASSA_HOST = real.IN_CLASSA_HOST
const IN_CLASSA_MAX = real.IN_CLASSA_MAX
const IN_CLASSA_NET = real.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = real.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = real.IN_CLASSB_HOST
const IN_CLASSB_MAX = real.IN_CLASSB_MAX
const IN_CLASSB_NET = real.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = real.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = real.IN_CLASSC_HOST
const IN_CLASSC_NET = real.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = real.IN_CLASSC_NSHIFT
const IN_CLOEXEC = real.IN_CLOEXEC
const IN_CLOSE = real.IN_CLOSE
const IN_CLOSE_NOWRITE = real.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = real.IN_CLOSE_WRITE
const IN_CREATE = real.IN_CREATE
const IN_DELETE = real.IN_DELETE
const IN_DELETE_SELF = real.IN_DELETE_SELF
const IN_DONT_FOLLOW = real.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = real.IN_EXCL_UNLINK
const IN_IGNORED = real.IN_IGNORED
const IN_ISDIR = real.IN_ISDIR
const IN_LOOPBACKNET = real.IN_LOOPBACKNET
const IN_MASK_ADD = real.IN_MASK_ADD
const IN_MASK_CREATE = real.IN_MASK_CREATE
const IN_MODIFY = real.IN_MODIFY
const IN_MOVE = real.IN_MOVE
const IN_MOVED_FROM = real.IN_MOVED_FROM
const IN_MOVED_TO = real.IN_MOVED_TO
const IN_MOVE_SELF = real.IN_MOVE_SELF
const IN_NONBLOCK = real.IN_NONBLOCK
const IN_ONESHOT = real.IN_ONESHOT
const IN_ONLYDIR = real.IN_ONLYDIR
const IN_OPEN = real.IN_OPEN
const IN_Q_OVERFLOW = real.IN_Q_OVERFLOW
const IN_UNMOUNT = real.IN_UNMOUNT
const IOCTL_VM_SOCKETS_GET_LOCAL_CID = real.IOCTL_VM_SOCKETS_GET_LOCAL_CID

type IPMreq = real.IPMreq
type IPMreqn = real.IPMreqn

const IPPROTO_AH = real.IPPROTO_AH
const IPPROTO_BEETPH = real.IPPROTO_BEETPH
const IPPROTO_COMP = real.IPPROTO_COMP
const IPPROTO_DCCP = real.IPPROTO_DCCP
const IPPROTO_DSTOPTS = real.IPPROTO_DSTOPTS
const IPPROTO_EGP = real.IPPROTO_EGP
const IPPROTO_ENCAP = real.IPPROTO_ENCAP
const IPPROTO_ESP = real.IPPROTO_ESP
const IPPROTO_FRAGMENT = real.IPPROTO_FRAGMENT
const IPPROTO_GRE = real.IPPROTO_GRE
const IPPROTO_HOPOPTS = real.IPPROTO_HOPOPTS
const IPPROTO_ICMP = real.IPPROTO_ICMP
const IPPROTO_ICMPV6 = real.IPPROTO_ICMPV6
const IPPROTO_IDP = real.IPPROTO_IDP
const IPPROTO_IGMP = real.IPPROTO_IGMP
const IPPROTO_IP = real.IPPROTO_IP
const IPPROTO_IPIP = real.IPPROTO_IPIP
const IPPROTO_IPV6 = real.IPPROTO_IPV6
const IPPROTO_MH = real.IPPROTO_MH
const IPPROTO_MPLS = real.IPPROTO_MPLS
const IPPROTO_MTP = real.IPPROTO_MTP
const IPPROTO_NONE = real.IPPROTO_NONE
const IPPROTO_PIM = real.IPPROTO_PIM
const IPPROTO_PUP = real.IPPROTO_PUP
const IPPROTO_RAW = real.IPPROTO_RAW
const IPPROTO_ROUTING = real.IPPROTO_ROUTING
const IPPROTO_RSVP = real.IPPROTO_RSVP
const IPPROTO_SCTP = real.IPPROTO_SCTP
const IPPROTO_TCP = real.IPPROTO_TCP
const IPPROTO_TP = real.IPPROTO_TP
const IPPROTO_UDP = real.IPPROTO_UDP
const IPPROTO_UDPLITE = real.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = real.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = real.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = real.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = real.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = real.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = real.IPV6_2292RTHDR
const IPV6_ADDRFORM = real.IPV6_ADDRFORM
const IPV6_ADDR_PREFERENCES = real.IPV6_ADDR_PREFERENCES
const IPV6_ADD_MEMBERSHIP = real.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = real.IPV6_AUTHHDR
const IPV6_AUTOFLOWLABEL = real.IPV6_AUTOFLOWLABEL
const IPV6_CHECKSUM = real.IPV6_CHECKSUM
const IPV6_DONTFRAG = real.IPV6_DONTFRAG
const IPV6_DROP_MEMBERSHIP = real.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = real.IPV6_DSTOPTS
const IPV6_FREEBIND = real.IPV6_FREEBIND
const IPV6_HDRINCL = real.IPV6_HDRINCL
const IPV6_HOPLIMIT = real.IPV6_HOPLIMIT
const IPV6_HOPOPTS = real.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = real.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = real.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = real.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = real.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = real.IPV6_LEAVE_GROUP
const IPV6_MINHOPCOUNT = real.IPV6_MINHOPCOUNT
const IPV6_MTU = real.IPV6_MTU
const IPV6_MTU_DISCOVER = real.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_ALL = real.IPV6_MULTICAST_ALL
const IPV6_MULTICAST_HOPS = real.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = real.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = real.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = real.IPV6_NEXTHOP
const IPV6_ORIGDSTADDR = real.IPV6_ORIGDSTADDR
const IPV6_PATHMTU = real.IPV6_PATHMTU
const IPV6_PKTINFO = real.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = real.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = real.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_INTERFACE = real.IPV6_PMTUDISC_INTERFACE
const IPV6_PMTUDISC_OMIT = real.IPV6_PMTUDISC_OMIT
const IPV6_PMTUDISC_PROBE = real.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = real.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = real.IPV6_RECVDSTOPTS
const IPV6_RECVERR = real.IPV6_RECVERR
const IPV6_RECVFRAGSIZE = real.IPV6_RECVFRAGSIZE
const IPV6_RECVHOPLIMIT = real.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = real.IPV6_RECVHOPOPTS
const IPV6_RECVORIGDSTADDR = real.IPV6_RECVORIGDSTADDR
const IPV6_RECVPATHMTU = real.IPV6_RECVPATHMTU
const IPV6_RECVPKTINFO = real.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = real.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = real.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = real.IPV6_ROUTER_ALERT
const IPV6_RTHDR = real.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = real.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = real.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = real.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = real.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = real.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = real.IPV6_RXHOPOPTS
const IPV6_TCLASS = real.IPV6_TCLASS
const IPV6_TRANSPARENT = real.IPV6_TRANSPARENT
const IPV6_UNICAST_HOPS = real.IPV6_UNICAST_HOPS
const IPV6_UNICAST_IF = real.IPV6_UNICAST_IF
const IPV6_V6ONLY = real.IPV6_V6ONLY
const IPV6_XFRM_POLICY = real.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = real.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = real.IP_ADD_SOURCE_MEMBERSHIP
const IP_BIND_ADDRESS_NO_PORT = real.IP_BIND_ADDRESS_NO_PORT
const IP_BLOCK_SOURCE = real.IP_BLOCK_SOURCE
const IP_CHECKSUM = real.IP_CHECKSUM
const IP_DEFAULT_MULTICAST_LOOP = real.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = real.IP_DEFAULT_MULTICAST_TTL
const IP_DF = real.IP_DF
const IP_DROP_MEMBERSHIP = real.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = real.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = real.IP_FREEBIND
const IP_HDRINCL = real.IP_HDRINCL
const IP_IPSEC_POLICY = real.IP_IPSEC_POLICY
const IP_MAXPACKET = real.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = real.IP_MAX_MEMBERSHIPS
const IP_MF = real.IP_MF
const IP_MINTTL = real.IP_MINTTL
const IP_MSFILTER = real.IP_MSFILTER
const IP_MSS = real.IP_MSS
const IP_MTU = real.IP_MTU
const IP_MTU_DISCOVER = real.IP_MTU_DISCOVER
const IP_MULTICAST_ALL = real.IP_MULTICAST_ALL
const IP_MULTICAST_IF = real.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = real.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = real.IP_MULTICAST_TTL
const IP_NODEFRAG = real.IP_NODEFRAG
const IP_OFFMASK = real.IP_OFFMASK
const IP_OPTIONS = real.IP_OPTIONS
const IP_ORIGDSTADDR = real.IP_ORIGDSTADDR
const IP_PASSSEC = real.IP_PASSSEC
const IP_PKTINFO = real.IP_PKTINFO
const IP_PKTOPTIONS = real.IP_PKTOPTIONS
const IP_PMTUDISC = real.IP_PMTUDISC
const IP_PMTUDISC_DO = real.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = real.IP_PMTUDISC_DONT
const IP_PMTUDISC_INTERFACE = real.IP_PMTUDISC_INTERFACE
const IP_PMTUDISC_OMIT = real.IP_PMTUDISC_OMIT
const IP_PMTUDISC_PROBE = real.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = real.IP_PMTUDISC_WANT
const IP_RECVERR = real.IP_RECVERR
const IP_RECVFRAGSIZE = real.IP_RECVFRAGSIZE
const IP_RECVOPTS = real.IP_RECVOPTS
const IP_RECVORIGDSTADDR = real.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = real.IP_RECVRETOPTS
const IP_RECVTOS = real.IP_RECVTOS
const IP_RECVTTL = real.IP_RECVTTL
const IP_RETOPTS = real.IP_RETOPTS
const IP_RF = real.IP_RF
const IP_ROUTER_ALERT = real.IP_ROUTER_ALERT
const IP_TOS = real.IP_TOS
const IP_TRANSPARENT = real.IP_TRANSPARENT
const IP_TTL = real.IP_TTL
const IP_UNBLOCK_SOURCE = real.IP_UNBLOCK_SOURCE
const IP_UNICAST_IF = real.IP_UNICAST_IF
const IP_XFRM_POLICY = real.IP_XFRM_POLICY

type IPv6MTUInfo = real.IPv6MTUInfo
type IPv6Mreq = real.IPv6Mreq

const ISIG = real.ISIG
const ISOFS_SUPER_MAGIC = real.ISOFS_SUPER_MAGIC
const ISTRIP = real.ISTRIP
const IUCLC = real.IUCLC
const IUTF8 = real.IUTF8
const IXANY = real.IXANY
const IXOFF = real.IXOFF
const IXON = real.IXON

type IfAddrmsg = real.IfAddrmsg
type IfInfomsg = real.IfInfomsg

const ImplementsGetwd = real.ImplementsGetwd

type Inet4Pktinfo = real.Inet4Pktinfo
type Inet6Pktinfo = real.Inet6Pktinfo

var InitModule = real.InitModule
var InotifyAddWatch = real.InotifyAddWatch

type InotifyEvent = real.InotifyEvent

var InotifyInit = real.InotifyInit
var InotifyInit1 = real.InotifyInit1
var InotifyRmWatch = real.InotifyRmWatch
var IoctlGetInt = real.IoctlGetInt
var IoctlGetRTCTime = real.IoctlGetRTCTime
var IoctlGetTermios = real.IoctlGetTermios
var IoctlGetWinsize = real.IoctlGetWinsize
var IoctlSetInt = real.IoctlSetInt
var IoctlSetPointerInt = real.IoctlSetPointerInt
var IoctlSetRTCTime = real.IoctlSetRTCTime
var IoctlSetTermios = real.IoctlSetTermios
var IoctlSetWinsize = real.IoctlSetWinsize
var Ioperm = real.Ioperm
var Iopl = real.Iopl

type Iovec = real.Iovec

const JFFS2_SUPER_MAGIC = real.JFFS2_SUPER_MAGIC
const KEXEC_ARCH_386 = real.KEXEC_ARCH_386
const KEXEC_ARCH_68K = real.KEXEC_ARCH_68K
const KEXEC_ARCH_AARCH64 = real.KEXEC_ARCH_AARCH64
const KEXEC_ARCH_ARM = real.KEXEC_ARCH_ARM
const KEXEC_ARCH_DEFAULT = real.KEXEC_ARCH_DEFAULT
const KEXEC_ARCH_IA_64 = real.KEXEC_ARCH_IA_64
const KEXEC_ARCH_MASK = real.KEXEC_ARCH_MASK
const KEXEC_ARCH_MIPS = real.KEXEC_ARCH_MIPS
const KEXEC_ARCH_MIPS_LE = real.KEXEC_ARCH_MIPS_LE
const KEXEC_ARCH_PPC = real.KEXEC_ARCH_PPC
const KEXEC_ARCH_PPC64 = real.KEXEC_ARCH_PPC64
const KEXEC_ARCH_S390 = real.KEXEC_ARCH_S390
const KEXEC_ARCH_SH = real.KEXEC_ARCH_SH
const KEXEC_ARCH_X86_64 = real.KEXEC_ARCH_X86_64
const KEXEC_FILE_NO_INITRAMFS = real.KEXEC_FILE_NO_INITRAMFS
const KEXEC_FILE_ON_CRASH = real.KEXEC_FILE_ON_CRASH
const KEXEC_FILE_UNLOAD = real.KEXEC_FILE_UNLOAD
const KEXEC_ON_CRASH = real.KEXEC_ON_CRASH
const KEXEC_PRESERVE_CONTEXT = real.KEXEC_PRESERVE_CONTEXT
const KEXEC_SEGMENT_MAX = real.KEXEC_SEGMENT_MAX
const KEYCTL_ASSUME_AUTHORITY = real.KEYCTL_ASSUME_AUTHORITY
const KEYCTL_CHOWN = real.KEYCTL_CHOWN
const KEYCTL_CLEAR = real.KEYCTL_CLEAR
const KEYCTL_DESCRIBE = real.KEYCTL_DESCRIBE
const KEYCTL_DH_COMPUTE = real.KEYCTL_DH_COMPUTE
const KEYCTL_GET_KEYRING_ID = real.KEYCTL_GET_KEYRING_ID
const KEYCTL_GET_PERSISTENT = real.KEYCTL_GET_PERSISTENT
const KEYCTL_GET_SECURITY = real.KEYCTL_GET_SECURITY
const KEYCTL_INSTANTIATE = real.KEYCTL_INSTANTIATE
const KEYCTL_INSTANTIATE_IOV = real.KEYCTL_INSTANTIATE_IOV
const KEYCTL_INVALIDATE = real.KEYCTL_INVALIDATE
const KEYCTL_JOIN_SESSION_KEYRING = real.KEYCTL_JOIN_SESSION_KEYRING
const KEYCTL_LINK = real.KEYCTL_LINK
const KEYCTL_NEGATE = real.KEYCTL_NEGATE
const KEYCTL_PKEY_DECRYPT = real.KEYCTL_PKEY_DECRYPT
const KEYCTL_PKEY_ENCRYPT = real.KEYCTL_PKEY_ENCRYPT
const KEYCTL_PKEY_QUERY = real.KEYCTL_PKEY_QUERY
const KEYCTL_PKEY_SIGN = real.KEYCTL_PKEY_SIGN
const KEYCTL_PKEY_VERIFY = real.KEYCTL_PKEY_VERIFY
const KEYCTL_READ = real.KEYCTL_READ
const KEYCTL_REJECT = real.KEYCTL_REJECT
const KEYCTL_RESTRICT_KEYRING = real.KEYCTL_RESTRICT_KEYRING
const KEYCTL_REVOKE = real.KEYCTL_REVOKE
const KEYCTL_SEARCH = real.KEYCTL_SEARCH
const KEYCTL_SESSION_TO_PARENT = real.KEYCTL_SESSION_TO_PARENT
const KEYCTL_SETPERM = real.KEYCTL_SETPERM
const KEYCTL_SET_REQKEY_KEYRING = real.KEYCTL_SET_REQKEY_KEYRING
const KEYCTL_SET_TIMEOUT = real.KEYCTL_SET_TIMEOUT
const KEYCTL_SUPPORTS_DECRYPT = real.KEYCTL_SUPPORTS_DECRYPT
const KEYCTL_SUPPORTS_ENCRYPT = real.KEYCTL_SUPPORTS_ENCRYPT
const KEYCTL_SUPPORTS_SIGN = real.KEYCTL_SUPPORTS_SIGN
const KEYCTL_SUPPORTS_VERIFY = real.KEYCTL_SUPPORTS_VERIFY
const KEYCTL_UNLINK = real.KEYCTL_UNLINK
const KEYCTL_UPDATE = real.KEYCTL_UPDATE
const KEY_REQKEY_DEFL_DEFAULT = real.KEY_REQKEY_DEFL_DEFAULT
const KEY_REQKEY_DEFL_GROUP_KEYRING = real.KEY_REQKEY_DEFL_GROUP_KEYRING
const KEY_REQKEY_DEFL_NO_CHANGE = real.KEY_REQKEY_DEFL_NO_CHANGE
const KEY_REQKEY_DEFL_PROCESS_KEYRING = real.KEY_REQKEY_DEFL_PROCESS_KEYRING
const KEY_REQKEY_DEFL_REQUESTOR_KEYRING = real.KEY_REQKEY_DEFL_REQUESTOR_KEYRING
const KEY_REQKEY_DEFL_SESSION_KEYRING = real.KEY_REQKEY_DEFL_SESSION_KEYRING
const KEY_REQKEY_DEFL_THREAD_KEYRING = real.KEY_REQKEY_DEFL_THREAD_KEYRING
const KEY_REQKEY_DEFL_USER_KEYRING = real.KEY_REQKEY_DEFL_USER_KEYRING
const KEY_REQKEY_DEFL_USER_SESSION_KEYRING = real.KEY_REQKEY_DEFL_USER_SESSION_KEYRING
const KEY_SPEC_GROUP_KEYRING = real.KEY_SPEC_GROUP_KEYRING
const KEY_SPEC_PROCESS_KEYRING = real.KEY_SPEC_PROCESS_KEYRING
const KEY_SPEC_REQKEY_AUTH_KEY = real.KEY_SPEC_REQKEY_AUTH_KEY
const KEY_SPEC_REQUESTOR_KEYRING = real.KEY_SPEC_REQUESTOR_KEYRING
const KEY_SPEC_SESSION_KEYRING = real.KEY_SPEC_SESSION_KEYRING
const KEY_SPEC_THREAD_KEYRING = real.KEY_SPEC_THREAD_KEYRING
const KEY_SPEC_USER_KEYRING = real.KEY_SPEC_USER_KEYRING
const KEY_SPEC_USER_SESSION_KEYRING = real.KEY_SPEC_USER_SESSION_KEYRING

var KexecFileLoad = real.KexecFileLoad
var KeyctlBuffer = real.KeyctlBuffer
var KeyctlDHCompute = real.KeyctlDHCompute

type KeyctlDHParams = real.KeyctlDHParams

var KeyctlGetKeyringID = real.KeyctlGetKeyringID
var KeyctlInstantiateIOV = real.KeyctlInstantiateIOV
var KeyctlInt = real.KeyctlInt
var KeyctlJoinSessionKeyring = real.KeyctlJoinSessionKeyring
var KeyctlSearch = real.KeyctlSearch
var KeyctlSetperm = real.KeyctlSetperm
var KeyctlString = real.KeyctlString
var Kill = real.Kill
var Klogctl = real.Klogctl

const LINUX_REBOOT_CMD_CAD_OFF = real.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = real.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = real.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = real.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = real.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = real.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = real.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = real.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = real.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = real.LINUX_REBOOT_MAGIC2
const LOCK_EX = real.LOCK_EX
const LOCK_NB = real.LOCK_NB
const LOCK_SH = real.LOCK_SH
const LOCK_UN = real.LOCK_UN

var Lchown = real.Lchown
var Lgetxattr = real.Lgetxattr

type Linger = real.Linger

var Link = real.Link
var Linkat = real.Linkat
var Listen = real.Listen
var Listxattr = real.Listxattr
var Llistxattr = real.Llistxattr
var Lremovexattr = real.Lremovexattr
var Lsetxattr = real.Lsetxattr
var Lstat = real.Lstat
var Lutimes = real.Lutimes

const MADV_DODUMP = real.MADV_DODUMP
const MADV_DOFORK = real.MADV_DOFORK
const MADV_DONTDUMP = real.MADV_DONTDUMP
const MADV_DONTFORK = real.MADV_DONTFORK
const MADV_DONTNEED = real.MADV_DONTNEED
const MADV_FREE = real.MADV_FREE
const MADV_HUGEPAGE = real.MADV_HUGEPAGE
const MADV_HWPOISON = real.MADV_HWPOISON
const MADV_KEEPONFORK = real.MADV_KEEPONFORK
const MADV_MERGEABLE = real.MADV_MERGEABLE
const MADV_NOHUGEPAGE = real.MADV_NOHUGEPAGE
const MADV_NORMAL = real.MADV_NORMAL
const MADV_RANDOM = real.MADV_RANDOM
const MADV_REMOVE = real.MADV_REMOVE
const MADV_SEQUENTIAL = real.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = real.MADV_UNMERGEABLE
const MADV_WILLNEED = real.MADV_WILLNEED
const MADV_WIPEONFORK = real.MADV_WIPEONFORK
const MAP_32BIT = real.MAP_32BIT
const MAP_ANON = real.MAP_ANON
const MAP_ANONYMOUS = real.MAP_ANONYMOUS
const MAP_DENYWRITE = real.MAP_DENYWRITE
const MAP_EXECUTABLE = real.MAP_EXECUTABLE
const MAP_FILE = real.MAP_FILE
const MAP_FIXED = real.MAP_FIXED
const MAP_FIXED_NOREPLACE = real.MAP_FIXED_NOREPLACE
const MAP_GROWSDOWN = real.MAP_GROWSDOWN
const MAP_HUGETLB = real.MAP_HUGETLB
const MAP_HUGE_MASK = real.MAP_HUGE_MASK
const MAP_HUGE_SHIFT = real.MAP_HUGE_SHIFT
const MAP_LOCKED = real.MAP_LOCKED
const MAP_NONBLOCK = real.MAP_NONBLOCK
const MAP_NORESERVE = real.MAP_NORESERVE
const MAP_POPULATE = real.MAP_POPULATE
const MAP_PRIVATE = real.MAP_PRIVATE
const MAP_SHARED = real.MAP_SHARED
const MAP_SHARED_VALIDATE = real.MAP_SHARED_VALIDATE
const MAP_STACK = real.MAP_STACK
const MAP_SYNC = real.MAP_SYNC
const MAP_TYPE = real.MAP_TYPE
const MCL_CURRENT = real.MCL_CURRENT
const MCL_FUTURE = real.MCL_FUTURE
const MCL_ONFAULT = real.MCL_ONFAULT
const MFD_ALLOW_SEALING = real.MFD_ALLOW_SEALING
const MFD_CLOEXEC = real.MFD_CLOEXEC
const MFD_HUGETLB = real.MFD_HUGETLB
const MFD_HUGE_16GB = real.MFD_HUGE_16GB
const MFD_HUGE_16MB = real.MFD_HUGE_16MB
const MFD_HUGE_1GB = real.MFD_HUGE_1GB
const MFD_HUGE_1MB = real.MFD_HUGE_1MB
const MFD_HUGE_256MB = real.MFD_HUGE_256MB
const MFD_HUGE_2GB = real.MFD_HUGE_2GB
const MFD_HUGE_2MB = real.MFD_HUGE_2MB
const MFD_HUGE_32MB = real.MFD_HUGE_32MB
const MFD_HUGE_512KB = real.MFD_HUGE_512KB
const MFD_HUGE_512MB = real.MFD_HUGE_512MB
const MFD_HUGE_64KB = real.MFD_HUGE_64KB
const MFD_HUGE_8MB = real.MFD_HUGE_8MB
const MFD_HUGE_MASK = real.MFD_HUGE_MASK
const MFD_HUGE_SHIFT = real.MFD_HUGE_SHIFT
const MINIX2_SUPER_MAGIC = real.MINIX2_SUPER_MAGIC
const MINIX2_SUPER_MAGIC2 = real.MINIX2_SUPER_MAGIC2
const MINIX3_SUPER_MAGIC = real.MINIX3_SUPER_MAGIC
const MINIX_SUPER_MAGIC = real.MINIX_SUPER_MAGIC
const MINIX_SUPER_MAGIC2 = real.MINIX_SUPER_MAGIC2
const MNT_DETACH = real.MNT_DETACH
const MNT_EXPIRE = real.MNT_EXPIRE
const MNT_FORCE = real.MNT_FORCE
const MODULE_INIT_IGNORE_MODVERSIONS = real.MODULE_INIT_IGNORE_MODVERSIONS
const MODULE_INIT_IGNORE_VERMAGIC = real.MODULE_INIT_IGNORE_VERMAGIC
const MSDOS_SUPER_MAGIC = real.MSDOS_SUPER_MAGIC
const MSG_BATCH = real.MSG_BATCH
const MSG_CMSG_CLOEXEC = real.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = real.MSG_CONFIRM
const MSG_CTRUNC = real.MSG_CTRUNC
const MSG_DONTROUTE = real.MSG_DONTROUTE
const MSG_DONTWAIT = real.MSG_DONTWAIT
const MSG_EOR = real.MSG_EOR
const MSG_ERRQUEUE = real.MSG_ERRQUEUE
const MSG_FASTOPEN = real.MSG_FASTOPEN
const MSG_FIN = real.MSG_FIN
const MSG_MORE = real.MSG_MORE
const MSG_NOSIGNAL = real.MSG_NOSIGNAL
const MSG_OOB = real.MSG_OOB
const MSG_PEEK = real.MSG_PEEK
const MSG_PROXY = real.MSG_PROXY
const MSG_RST = real.MSG_RST
const MSG_SYN = real.MSG_SYN
const MSG_TRUNC = real.MSG_TRUNC
const MSG_TRYHARD = real.MSG_TRYHARD
const MSG_WAITALL = real.MSG_WAITALL
const MSG_WAITFORONE = real.MSG_WAITFORONE
const MSG_ZEROCOPY = real.MSG_ZEROCOPY
const MS_ACTIVE = real.MS_ACTIVE
const MS_ASYNC = real.MS_ASYNC
const MS_BIND = real.MS_BIND
const MS_BORN = real.MS_BORN
const MS_DIRSYNC = real.MS_DIRSYNC
const MS_INVALIDATE = real.MS_INVALIDATE
const MS_I_VERSION = real.MS_I_VERSION
const MS_KERNMOUNT = real.MS_KERNMOUNT
const MS_LAZYTIME = real.MS_LAZYTIME
const MS_MANDLOCK = real.MS_MANDLOCK
const MS_MGC_MSK = real.MS_MGC_MSK
const MS_MGC_VAL = real.MS_MGC_VAL
const MS_MOVE = real.MS_MOVE
const MS_NOATIME = real.MS_NOATIME
const MS_NODEV = real.MS_NODEV
const MS_NODIRATIME = real.MS_NODIRATIME
const MS_NOEXEC = real.MS_NOEXEC
const MS_NOREMOTELOCK = real.MS_NOREMOTELOCK
const MS_NOSEC = real.MS_NOSEC
const MS_NOSUID = real.MS_NOSUID
const MS_NOUSER = real.MS_NOUSER
const MS_POSIXACL = real.MS_POSIXACL
const MS_PRIVATE = real.MS_PRIVATE
const MS_RDONLY = real.MS_RDONLY
const MS_REC = real.MS_REC
const MS_RELATIME = real.MS_RELATIME
const MS_REMOUNT = real.MS_REMOUNT
const MS_RMT_MASK = real.MS_RMT_MASK
const MS_SHARED = real.MS_SHARED
const MS_SILENT = real.MS_SILENT
const MS_SLAVE = real.MS_SLAVE
const MS_STRICTATIME = real.MS_STRICTATIME
const MS_SUBMOUNT = real.MS_SUBMOUNT
const MS_SYNC = real.MS_SYNC
const MS_SYNCHRONOUS = real.MS_SYNCHRONOUS
const MS_UNBINDABLE = real.MS_UNBINDABLE
const MS_VERBOSE = real.MS_VERBOSE
const MTD_INODE_FS_MAGIC = real.MTD_INODE_FS_MAGIC

var Major = real.Major
var MemfdCreate = real.MemfdCreate
var Minor = real.Minor
var Mkdev = real.Mkdev
var Mkdir = real.Mkdir
var Mkdirat = real.Mkdirat
var Mkfifo = real.Mkfifo
var Mkfifoat = real.Mkfifoat
var Mknod = real.Mknod
var Mknodat = real.Mknodat
var Mlockall = real.Mlockall
var Mount = real.Mount
var Mprotect = real.Mprotect

type Msghdr = real.Msghdr

var Msync = real.Msync
var Munlock = real.Munlock
var Munlockall = real.Munlockall

const NAME_MAX = real.NAME_MAX
const NCP_SUPER_MAGIC = real.NCP_SUPER_MAGIC
const NCSI_ATTR_CHANNEL_ID = real.NCSI_ATTR_CHANNEL_ID
const NCSI_ATTR_IFINDEX = real.NCSI_ATTR_IFINDEX
const NCSI_ATTR_PACKAGE_ID = real.NCSI_ATTR_PACKAGE_ID
const NCSI_ATTR_PACKAGE_LIST = real.NCSI_ATTR_PACKAGE_LIST
const NCSI_ATTR_UNSPEC = real.NCSI_ATTR_UNSPEC
const NCSI_CHANNEL_ATTR = real.NCSI_CHANNEL_ATTR
const NCSI_CHANNEL_ATTR_ACTIVE = real.NCSI_CHANNEL_ATTR_ACTIVE
const NCSI_CHANNEL_ATTR_FORCED = real.NCSI_CHANNEL_ATTR_FORCED
const NCSI_CHANNEL_ATTR_ID = real.NCSI_CHANNEL_ATTR_ID
const NCSI_CHANNEL_ATTR_LINK_STATE = real.NCSI_CHANNEL_ATTR_LINK_STATE
const NCSI_CHANNEL_ATTR_UNSPEC = real.NCSI_CHANNEL_ATTR_UNSPEC
const NCSI_CHANNEL_ATTR_VERSION_MAJOR = real.NCSI_CHANNEL_ATTR_VERSION_MAJOR
const NCSI_CHANNEL_ATTR_VERSION_MINOR = real.NCSI_CHANNEL_ATTR_VERSION_MINOR
const NCSI_CHANNEL_ATTR_VERSION_STR = real.NCSI_CHANNEL_ATTR_VERSION_STR
const NCSI_CHANNEL_ATTR_VLAN_ID = real.NCSI_CHANNEL_ATTR_VLAN_ID
const NCSI_CHANNEL_ATTR_VLAN_LIST = real.NCSI_CHANNEL_ATTR_VLAN_LIST
const NCSI_CMD_CLEAR_INTERFACE = real.NCSI_CMD_CLEAR_INTERFACE
const NCSI_CMD_PKG_INFO = real.NCSI_CMD_PKG_INFO
const NCSI_CMD_SET_INTERFACE = real.NCSI_CMD_SET_INTERFACE
const NCSI_CMD_UNSPEC = real.NCSI_CMD_UNSPEC
const NCSI_PKG_ATTR = real.NCSI_PKG_ATTR
const NCSI_PKG_ATTR_CHANNEL_LIST = real.NCSI_PKG_ATTR_CHANNEL_LIST
const NCSI_PKG_ATTR_FORCED = real.NCSI_PKG_ATTR_FORCED
const NCSI_PKG_ATTR_ID = real.NCSI_PKG_ATTR_ID
const NCSI_PKG_ATTR_UNSPEC = real.NCSI_PKG_ATTR_UNSPEC
const NETLINK_ADD_MEMBERSHIP = real.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = real.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = real.NETLINK_BROADCAST_ERROR
const NETLINK_CAP_ACK = real.NETLINK_CAP_ACK
const NETLINK_CONNECTOR = real.NETLINK_CONNECTOR
const NETLINK_CRYPTO = real.NETLINK_CRYPTO
const NETLINK_DNRTMSG = real.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = real.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = real.NETLINK_ECRYPTFS
const NETLINK_EXT_ACK = real.NETLINK_EXT_ACK
const NETLINK_FIB_LOOKUP = real.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = real.NETLINK_FIREWALL
const NETLINK_GENERIC = real.NETLINK_GENERIC
const NETLINK_GET_STRICT_CHK = real.NETLINK_GET_STRICT_CHK
const NETLINK_INET_DIAG = real.NETLINK_INET_DIAG
const NETLINK_IP6_FW = real.NETLINK_IP6_FW
const NETLINK_ISCSI = real.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = real.NETLINK_KOBJECT_UEVENT
const NETLINK_LISTEN_ALL_NSID = real.NETLINK_LISTEN_ALL_NSID
const NETLINK_LIST_MEMBERSHIPS = real.NETLINK_LIST_MEMBERSHIPS
const NETLINK_NETFILTER = real.NETLINK_NETFILTER
const NETLINK_NFLOG = real.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = real.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = real.NETLINK_PKTINFO
const NETLINK_RDMA = real.NETLINK_RDMA
const NETLINK_ROUTE = real.NETLINK_ROUTE
const NETLINK_RX_RING = real.NETLINK_RX_RING
const NETLINK_SCSITRANSPORT = real.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = real.NETLINK_SELINUX
const NETLINK_SMC = real.NETLINK_SMC
const NETLINK_SOCK_DIAG = real.NETLINK_SOCK_DIAG
const NETLINK_TX_RING = real.NETLINK_TX_RING
const NETLINK_UNUSED = real.NETLINK_UNUSED
const NETLINK_USERSOCK = real.NETLINK_USERSOCK
const NETLINK_XFRM = real.NETLINK_XFRM
const NETNSA_FD = real.NETNSA_FD
const NETNSA_MAX = real.NETNSA_MAX
const NETNSA_NONE = real.NETNSA_NONE
const NETNSA_NSID = real.NETNSA_NSID
const NETNSA_NSID_NOT_ASSIGNED = real.NETNSA_NSID_NOT_ASSIGNED
const NETNSA_PID = real.NETNSA_PID
const NFNETLINK_V0 = real.NFNETLINK_V0
const NFNLGRP_ACCT_QUOTA = real.NFNLGRP_ACCT_QUOTA
const NFNLGRP_CONNTRACK_DESTROY = real.NFNLGRP_CONNTRACK_DESTROY
const NFNLGRP_CONNTRACK_EXP_DESTROY = real.NFNLGRP_CONNTRACK_EXP_DESTROY
const NFNLGRP_CONNTRACK_EXP_NEW = real.NFNLGRP_CONNTRACK_EXP_NEW
const NFNLGRP_CONNTRACK_EXP_UPDATE = real.NFNLGRP_CONNTRACK_EXP_UPDATE
const NFNLGRP_CONNTRACK_NEW = real.NFNLGRP_CONNTRACK_NEW
const NFNLGRP_CONNTRACK_UPDATE = real.NFNLGRP_CONNTRACK_UPDATE
const NFNLGRP_MAX = real.NFNLGRP_MAX
const NFNLGRP_NFTABLES = real.NFNLGRP_NFTABLES
const NFNLGRP_NFTRACE = real.NFNLGRP_NFTRACE
const NFNLGRP_NONE = real.NFNLGRP_NONE
const NFNL_BATCH_GENID = real.NFNL_BATCH_GENID
const NFNL_BATCH_MAX = real.NFNL_BATCH_MAX
const NFNL_BATCH_UNSPEC = real.NFNL_BATCH_UNSPEC
const NFNL_MSG_BATCH_BEGIN = real.NFNL_MSG_BATCH_BEGIN
const NFNL_MSG_BATCH_END = real.NFNL_MSG_BATCH_END
const NFNL_NFA_NEST = real.NFNL_NFA_NEST
const NFNL_SUBSYS_ACCT = real.NFNL_SUBSYS_ACCT
const NFNL_SUBSYS_COUNT = real.NFNL_SUBSYS_COUNT
const NFNL_SUBSYS_CTHELPER = real.NFNL_SUBSYS_CTHELPER
const NFNL_SUBSYS_CTNETLINK = real.NFNL_SUBSYS_CTNETLINK
const NFNL_SUBSYS_CTNETLINK_EXP = real.NFNL_SUBSYS_CTNETLINK_EXP
const NFNL_SUBSYS_CTNETLINK_TIMEOUT = real.NFNL_SUBSYS_CTNETLINK_TIMEOUT
const NFNL_SUBSYS_IPSET = real.NFNL_SUBSYS_IPSET
const NFNL_SUBSYS_NFTABLES = real.NFNL_SUBSYS_NFTABLES
const NFNL_SUBSYS_NFT_COMPAT = real.NFNL_SUBSYS_NFT_COMPAT
const NFNL_SUBSYS_NONE = real.NFNL_SUBSYS_NONE
const NFNL_SUBSYS_OSF = real.NFNL_SUBSYS_OSF
const NFNL_SUBSYS_QUEUE = real.NFNL_SUBSYS_QUEUE
const NFNL_SUBSYS_ULOG = real.NFNL_SUBSYS_ULOG
const NFPROTO_ARP = real.NFPROTO_ARP
const NFPROTO_BRIDGE = real.NFPROTO_BRIDGE
const NFPROTO_DECNET = real.NFPROTO_DECNET
const NFPROTO_INET = real.NFPROTO_INET
const NFPROTO_IPV4 = real.NFPROTO_IPV4
const NFPROTO_IPV6 = real.NFPROTO_IPV6
const NFPROTO_NETDEV = real.NFPROTO_NETDEV
const NFPROTO_NUMPROTO = real.NFPROTO_NUMPROTO
const NFPROTO_UNSPEC = real.NFPROTO_UNSPEC
const NFS_SUPER_MAGIC = real.NFS_SUPER_MAGIC
const NFTA_BITWISE_DREG = real.NFTA_BITWISE_DREG
const NFTA_BITWISE_LEN = real.NFTA_BITWISE_LEN
const NFTA_BITWISE_MASK = real.NFTA_BITWISE_MASK
const NFTA_BITWISE_SREG = real.NFTA_BITWISE_SREG
const NFTA_BITWISE_UNSPEC = real.NFTA_BITWISE_UNSPEC
const NFTA_BITWISE_XOR = real.NFTA_BITWISE_XOR
const NFTA_BYTEORDER_DREG = real.NFTA_BYTEORDER_DREG
const NFTA_BYTEORDER_LEN = real.NFTA_BYTEORDER_LEN
const NFTA_BYTEORDER_OP = real.NFTA_BYTEORDER_OP
const NFTA_BYTEORDER_SIZE = real.NFTA_BYTEORDER_SIZE
const NFTA_BYTEORDER_SREG = real.NFTA_BYTEORDER_SREG
const NFTA_BYTEORDER_UNSPEC = real.NFTA_BYTEORDER_UNSPEC
const NFTA_CHAIN_COUNTERS = real.NFTA_CHAIN_COUNTERS
const NFTA_CHAIN_HANDLE = real.NFTA_CHAIN_HANDLE
const NFTA_CHAIN_HOOK = real.NFTA_CHAIN_HOOK
const NFTA_CHAIN_NAME = real.NFTA_CHAIN_NAME
const NFTA_CHAIN_PAD = real.NFTA_CHAIN_PAD
const NFTA_CHAIN_POLICY = real.NFTA_CHAIN_POLICY
const NFTA_CHAIN_TABLE = real.NFTA_CHAIN_TABLE
const NFTA_CHAIN_TYPE = real.NFTA_CHAIN_TYPE
const NFTA_CHAIN_UNSPEC = real.NFTA_CHAIN_UNSPEC
const NFTA_CHAIN_USE = real.NFTA_CHAIN_USE
const NFTA_CMP_DATA = real.NFTA_CMP_DATA
const NFTA_CMP_OP = real.NFTA_CMP_OP
const NFTA_CMP_SREG = real.NFTA_CMP_SREG
const NFTA_CMP_UNSPEC = real.NFTA_CMP_UNSPEC
const NFTA_COUNTER_BYTES = real.NFTA_COUNTER_BYTES
const NFTA_COUNTER_PACKETS = real.NFTA_COUNTER_PACKETS
const NFTA_COUNTER_PAD = real.NFTA_COUNTER_PAD
const NFTA_COUNTER_UNSPEC = real.NFTA_COUNTER_UNSPEC
const NFTA_CT_DIRECTION = real.NFTA_CT_DIRECTION
const NFTA_CT_DREG = real.NFTA_CT_DREG
const NFTA_CT_HELPER_L3PROTO = real.NFTA_CT_HELPER_L3PROTO
const NFTA_CT_HELPER_L4PROTO = real.NFTA_CT_HELPER_L4PROTO
const NFTA_CT_HELPER_NAME = real.NFTA_CT_HELPER_NAME
const NFTA_CT_HELPER_UNSPEC = real.NFTA_CT_HELPER_UNSPEC
const NFTA_CT_KEY = real.NFTA_CT_KEY
const NFTA_CT_SREG = real.NFTA_CT_SREG
const NFTA_CT_UNSPEC = real.NFTA_CT_UNSPEC
const NFTA_DATA_UNSPEC = real.NFTA_DATA_UNSPEC
const NFTA_DATA_VALUE = real.NFTA_DATA_VALUE
const NFTA_DATA_VERDICT = real.NFTA_DATA_VERDICT
const NFTA_DUP_SREG_ADDR = real.NFTA_DUP_SREG_ADDR
const NFTA_DUP_SREG_DEV = real.NFTA_DUP_SREG_DEV
const NFTA_DUP_UNSPEC = real.NFTA_DUP_UNSPEC
const NFTA_DYNSET_EXPR = real.NFTA_DYNSET_EXPR
const NFTA_DYNSET_FLAGS = real.NFTA_DYNSET_FLAGS
const NFTA_DYNSET_OP = real.NFTA_DYNSET_OP
const NFTA_DYNSET_PAD = real.NFTA_DYNSET_PAD
const NFTA_DYNSET_SET_ID = real.NFTA_DYNSET_SET_ID
const NFTA_DYNSET_SET_NAME = real.NFTA_DYNSET_SET_NAME
const NFTA_DYNSET_SREG_DATA = real.NFTA_DYNSET_SREG_DATA
const NFTA_DYNSET_SREG_KEY = real.NFTA_DYNSET_SREG_KEY
const NFTA_DYNSET_TIMEOUT = real.NFTA_DYNSET_TIMEOUT
const NFTA_DYNSET_UNSPEC = real.NFTA_DYNSET_UNSPEC
const NFTA_EXPR_DATA = real.NFTA_EXPR_DATA
const NFTA_EXPR_NAME = real.NFTA_EXPR_NAME
const NFTA_EXPR_UNSPEC = real.NFTA_EXPR_UNSPEC
const NFTA_EXTHDR_DREG = real.NFTA_EXTHDR_DREG
const NFTA_EXTHDR_FLAGS = real.NFTA_EXTHDR_FLAGS
const NFTA_EXTHDR_LEN = real.NFTA_EXTHDR_LEN
const NFTA_EXTHDR_OFFSET = real.NFTA_EXTHDR_OFFSET
const NFTA_EXTHDR_OP = real.NFTA_EXTHDR_OP
const NFTA_EXTHDR_SREG = real.NFTA_EXTHDR_SREG
const NFTA_EXTHDR_TYPE = real.NFTA_EXTHDR_TYPE
const NFTA_EXTHDR_UNSPEC = real.NFTA_EXTHDR_UNSPEC
const NFTA_FIB_DREG = real.NFTA_FIB_DREG
const NFTA_FIB_FLAGS = real.NFTA_FIB_FLAGS
const NFTA_FIB_F_DADDR = real.NFTA_FIB_F_DADDR
const NFTA_FIB_F_IIF = real.NFTA_FIB_F_IIF
const NFTA_FIB_F_MARK = real.NFTA_FIB_F_MARK
const NFTA_FIB_F_OIF = real.NFTA_FIB_F_OIF
const NFTA_FIB_F_PRESENT = real.NFTA_FIB_F_PRESENT
const NFTA_FIB_F_SADDR = real.NFTA_FIB_F_SADDR
const NFTA_FIB_RESULT = real.NFTA_FIB_RESULT
const NFTA_FIB_UNSPEC = real.NFTA_FIB_UNSPEC
const NFTA_FWD_SREG_DEV = real.NFTA_FWD_SREG_DEV
const NFTA_FWD_UNSPEC = real.NFTA_FWD_UNSPEC
const NFTA_GEN_ID = real.NFTA_GEN_ID
const NFTA_GEN_PROC_NAME = real.NFTA_GEN_PROC_NAME
const NFTA_GEN_PROC_PID = real.NFTA_GEN_PROC_PID
const NFTA_GEN_UNSPEC = real.NFTA_GEN_UNSPEC
const NFTA_HASH_DREG = real.NFTA_HASH_DREG
const NFTA_HASH_LEN = real.NFTA_HASH_LEN
const NFTA_HASH_MODULUS = real.NFTA_HASH_MODULUS
const NFTA_HASH_OFFSET = real.NFTA_HASH_OFFSET
const NFTA_HASH_SEED = real.NFTA_HASH_SEED
const NFTA_HASH_SREG = real.NFTA_HASH_SREG
const NFTA_HASH_TYPE = real.NFTA_HASH_TYPE
const NFTA_HASH_UNSPEC = real.NFTA_HASH_UNSPEC
const NFTA_HOOK_DEV = real.NFTA_HOOK_DEV
const NFTA_HOOK_HOOKNUM = real.NFTA_HOOK_HOOKNUM
const NFTA_HOOK_PRIORITY = real.NFTA_HOOK_PRIORITY
const NFTA_HOOK_UNSPEC = real.NFTA_HOOK_UNSPEC
const NFTA_IMMEDIATE_DATA = real.NFTA_IMMEDIATE_DATA
const NFTA_IMMEDIATE_DREG = real.NFTA_IMMEDIATE_DREG
const NFTA_IMMEDIATE_UNSPEC = real.NFTA_IMMEDIATE_UNSPEC
const NFTA_LIMIT_BURST = real.NFTA_LIMIT_BURST
const NFTA_LIMIT_FLAGS = real.NFTA_LIMIT_FLAGS
const NFTA_LIMIT_PAD = real.NFTA_LIMIT_PAD
const NFTA_LIMIT_RATE = real.NFTA_LIMIT_RATE
const NFTA_LIMIT_TYPE = real.NFTA_LIMIT_TYPE
const NFTA_LIMIT_UNIT = real.NFTA_LIMIT_UNIT
const NFTA_LIMIT_UNSPEC = real.NFTA_LIMIT_UNSPEC
const NFTA_LIST_ELEM = real.NFTA_LIST_ELEM
const NFTA_LIST_UNPEC = real.NFTA_LIST_UNPEC
const NFTA_LOG_FLAGS = real.NFTA_LOG_FLAGS
const NFTA_LOG_GROUP = real.NFTA_LOG_GROUP
const NFTA_LOG_LEVEL = real.NFTA_LOG_LEVEL
const NFTA_LOG_PREFIX = real.NFTA_LOG_PREFIX
const NFTA_LOG_QTHRESHOLD = real.NFTA_LOG_QTHRESHOLD
const NFTA_LOG_SNAPLEN = real.NFTA_LOG_SNAPLEN
const NFTA_LOG_UNSPEC = real.NFTA_LOG_UNSPEC
const NFTA_LOOKUP_DREG = real.NFTA_LOOKUP_DREG
const NFTA_LOOKUP_FLAGS = real.NFTA_LOOKUP_FLAGS
const NFTA_LOOKUP_SET = real.NFTA_LOOKUP_SET
const NFTA_LOOKUP_SET_ID = real.NFTA_LOOKUP_SET_ID
const NFTA_LOOKUP_SREG = real.NFTA_LOOKUP_SREG
const NFTA_LOOKUP_UNSPEC = real.NFTA_LOOKUP_UNSPEC
const NFTA_MASQ_FLAGS = real.NFTA_MASQ_FLAGS
const NFTA_MASQ_REG_PROTO_MAX = real.NFTA_MASQ_REG_PROTO_MAX
const NFTA_MASQ_REG_PROTO_MIN = real.NFTA_MASQ_REG_PROTO_MIN
const NFTA_MASQ_UNSPEC = real.NFTA_MASQ_UNSPEC
const NFTA_META_DREG = real.NFTA_META_DREG
const NFTA_META_KEY = real.NFTA_META_KEY
const NFTA_META_SREG = real.NFTA_META_SREG
const NFTA_META_UNSPEC = real.NFTA_META_UNSPEC
const NFTA_NAT_FAMILY = real.NFTA_NAT_FAMILY
const NFTA_NAT_FLAGS = real.NFTA_NAT_FLAGS
const NFTA_NAT_REG_ADDR_MAX = real.NFTA_NAT_REG_ADDR_MAX
const NFTA_NAT_REG_ADDR_MIN = real.NFTA_NAT_REG_ADDR_MIN
const NFTA_NAT_REG_PROTO_MAX = real.NFTA_NAT_REG_PROTO_MAX
const NFTA_NAT_REG_PROTO_MIN = real.NFTA_NAT_REG_PROTO_MIN
const NFTA_NAT_TYPE = real.NFTA_NAT_TYPE
const NFTA_NAT_UNSPEC = real.NFTA_NAT_UNSPEC
const NFTA_NG_DREG = real.NFTA_NG_DREG
const NFTA_NG_MODULUS = real.NFTA_NG_MODULUS
const NFTA_NG_OFFSET = real.NFTA_NG_OFFSET
const NFTA_NG_TYPE = real.NFTA_NG_TYPE
const NFTA_NG_UNSPEC = real.NFTA_NG_UNSPEC
const NFTA_OBJREF_IMM_NAME = real.NFTA_OBJREF_IMM_NAME
const NFTA_OBJREF_IMM_TYPE = real.NFTA_OBJREF_IMM_TYPE
const NFTA_OBJREF_SET_ID = real.NFTA_OBJREF_SET_ID
const NFTA_OBJREF_SET_NAME = real.NFTA_OBJREF_SET_NAME
const NFTA_OBJREF_SET_SREG = real.NFTA_OBJREF_SET_SREG
const NFTA_OBJREF_UNSPEC = real.NFTA_OBJREF_UNSPEC
const NFTA_OBJ_DATA = real.NFTA_OBJ_DATA
const NFTA_OBJ_NAME = real.NFTA_OBJ_NAME
const NFTA_OBJ_TABLE = real.NFTA_OBJ_TABLE
const NFTA_OBJ_TYPE = real.NFTA_OBJ_TYPE
const NFTA_OBJ_UNSPEC = real.NFTA_OBJ_UNSPEC
const NFTA_OBJ_USE = real.NFTA_OBJ_USE
const NFTA_PAYLOAD_BASE = real.NFTA_PAYLOAD_BASE
const NFTA_PAYLOAD_CSUM_FLAGS = real.NFTA_PAYLOAD_CSUM_FLAGS
const NFTA_PAYLOAD_CSUM_OFFSET = real.NFTA_PAYLOAD_CSUM_OFFSET
const NFTA_PAYLOAD_CSUM_TYPE = real.NFTA_PAYLOAD_CSUM_TYPE
const NFTA_PAYLOAD_DREG = real.NFTA_PAYLOAD_DREG
const NFTA_PAYLOAD_LEN = real.NFTA_PAYLOAD_LEN
const NFTA_PAYLOAD_OFFSET = real.NFTA_PAYLOAD_OFFSET
const NFTA_PAYLOAD_SREG = real.NFTA_PAYLOAD_SREG
const NFTA_PAYLOAD_UNSPEC = real.NFTA_PAYLOAD_UNSPEC
const NFTA_QUEUE_FLAGS = real.NFTA_QUEUE_FLAGS
const NFTA_QUEUE_NUM = real.NFTA_QUEUE_NUM
const NFTA_QUEUE_SREG_QNUM = real.NFTA_QUEUE_SREG_QNUM
const NFTA_QUEUE_TOTAL = real.NFTA_QUEUE_TOTAL
const NFTA_QUEUE_UNSPEC = real.NFTA_QUEUE_UNSPEC
const NFTA_QUOTA_BYTES = real.NFTA_QUOTA_BYTES
const NFTA_QUOTA_CONSUMED = real.NFTA_QUOTA_CONSUMED
const NFTA_QUOTA_FLAGS = real.NFTA_QUOTA_FLAGS
const NFTA_QUOTA_PAD = real.NFTA_QUOTA_PAD
const NFTA_QUOTA_UNSPEC = real.NFTA_QUOTA_UNSPEC
const NFTA_RANGE_FROM_DATA = real.NFTA_RANGE_FROM_DATA
const NFTA_RANGE_OP = real.NFTA_RANGE_OP
const NFTA_RANGE_SREG = real.NFTA_RANGE_SREG
const NFTA_RANGE_TO_DATA = real.NFTA_RANGE_TO_DATA
const NFTA_RANGE_UNSPEC = real.NFTA_RANGE_UNSPEC
const NFTA_REDIR_FLAGS = real.NFTA_REDIR_FLAGS
const NFTA_REDIR_REG_PROTO_MAX = real.NFTA_REDIR_REG_PROTO_MAX
const NFTA_REDIR_REG_PROTO_MIN = real.NFTA_REDIR_REG_PROTO_MIN
const NFTA_REDIR_UNSPEC = real.NFTA_REDIR_UNSPEC
const NFTA_REJECT_ICMP_CODE = real.NFTA_REJECT_ICMP_CODE
const NFTA_REJECT_TYPE = real.NFTA_REJECT_TYPE
const NFTA_REJECT_UNSPEC = real.NFTA_REJECT_UNSPEC
const NFTA_RT_DREG = real.NFTA_RT_DREG
const NFTA_RT_KEY = real.NFTA_RT_KEY
const NFTA_RT_UNSPEC = real.NFTA_RT_UNSPEC
const NFTA_RULE_CHAIN = real.NFTA_RULE_CHAIN
const NFTA_RULE_COMPAT = real.NFTA_RULE_COMPAT
const NFTA_RULE_COMPAT_FLAGS = real.NFTA_RULE_COMPAT_FLAGS
const NFTA_RULE_COMPAT_PROTO = real.NFTA_RULE_COMPAT_PROTO
const NFTA_RULE_COMPAT_UNSPEC = real.NFTA_RULE_COMPAT_UNSPEC
const NFTA_RULE_EXPRESSIONS = real.NFTA_RULE_EXPRESSIONS
const NFTA_RULE_HANDLE = real.NFTA_RULE_HANDLE
const NFTA_RULE_ID = real.NFTA_RULE_ID
const NFTA_RULE_PAD = real.NFTA_RULE_PAD
const NFTA_RULE_POSITION = real.NFTA_RULE_POSITION
const NFTA_RULE_TABLE = real.NFTA_RULE_TABLE
const NFTA_RULE_UNSPEC = real.NFTA_RULE_UNSPEC
const NFTA_RULE_USERDATA = real.NFTA_RULE_USERDATA
const NFTA_SET_DATA_LEN = real.NFTA_SET_DATA_LEN
const NFTA_SET_DATA_TYPE = real.NFTA_SET_DATA_TYPE
const NFTA_SET_DESC = real.NFTA_SET_DESC
const NFTA_SET_DESC_SIZE = real.NFTA_SET_DESC_SIZE
const NFTA_SET_DESC_UNSPEC = real.NFTA_SET_DESC_UNSPEC
const NFTA_SET_ELEM_DATA = real.NFTA_SET_ELEM_DATA
const NFTA_SET_ELEM_EXPIRATION = real.NFTA_SET_ELEM_EXPIRATION
const NFTA_SET_ELEM_EXPR = real.NFTA_SET_ELEM_EXPR
const NFTA_SET_ELEM_FLAGS = real.NFTA_SET_ELEM_FLAGS
const NFTA_SET_ELEM_KEY = real.NFTA_SET_ELEM_KEY
const NFTA_SET_ELEM_LIST_ELEMENTS = real.NFTA_SET_ELEM_LIST_ELEMENTS
const NFTA_SET_ELEM_LIST_SET = real.NFTA_SET_ELEM_LIST_SET
const NFTA_SET_ELEM_LIST_SET_ID = real.NFTA_SET_ELEM_LIST_SET_ID
const NFTA_SET_ELEM_LIST_TABLE = real.NFTA_SET_ELEM_LIST_TABLE
const NFTA_SET_ELEM_LIST_UNSPEC = real.NFTA_SET_ELEM_LIST_UNSPEC
const NFTA_SET_ELEM_OBJREF = real.NFTA_SET_ELEM_OBJREF
const NFTA_SET_ELEM_PAD = real.NFTA_SET_ELEM_PAD
const NFTA_SET_ELEM_TIMEOUT = real.NFTA_SET_ELEM_TIMEOUT
const NFTA_SET_ELEM_UNSPEC = real.NFTA_SET_ELEM_UNSPEC
const NFTA_SET_ELEM_USERDATA = real.NFTA_SET_ELEM_USERDATA
const NFTA_SET_FLAGS = real.NFTA_SET_FLAGS
const NFTA_SET_GC_INTERVAL = real.NFTA_SET_GC_INTERVAL
const NFTA_SET_ID = real.NFTA_SET_ID
const NFTA_SET_KEY_LEN = real.NFTA_SET_KEY_LEN
const NFTA_SET_KEY_TYPE = real.NFTA_SET_KEY_TYPE
const NFTA_SET_NAME = real.NFTA_SET_NAME
const NFTA_SET_OBJ_TYPE = real.NFTA_SET_OBJ_TYPE
const NFTA_SET_PAD = real.NFTA_SET_PAD
const NFTA_SET_POLICY = real.NFTA_SET_POLICY
const NFTA_SET_TABLE = real.NFTA_SET_TABLE
const NFTA_SET_TIMEOUT = real.NFTA_SET_TIMEOUT
const NFTA_SET_UNSPEC = real.NFTA_SET_UNSPEC
const NFTA_SET_USERDATA = real.NFTA_SET_USERDATA
const NFTA_TABLE_FLAGS = real.NFTA_TABLE_FLAGS
const NFTA_TABLE_NAME = real.NFTA_TABLE_NAME
const NFTA_TABLE_UNSPEC = real.NFTA_TABLE_UNSPEC
const NFTA_TABLE_USE = real.NFTA_TABLE_USE
const NFTA_TRACE_CHAIN = real.NFTA_TRACE_CHAIN
const NFTA_TRACE_ID = real.NFTA_TRACE_ID
const NFTA_TRACE_IIF = real.NFTA_TRACE_IIF
const NFTA_TRACE_IIFTYPE = real.NFTA_TRACE_IIFTYPE
const NFTA_TRACE_LL_HEADER = real.NFTA_TRACE_LL_HEADER
const NFTA_TRACE_MARK = real.NFTA_TRACE_MARK
const NFTA_TRACE_NETWORK_HEADER = real.NFTA_TRACE_NETWORK_HEADER
const NFTA_TRACE_NFPROTO = real.NFTA_TRACE_NFPROTO
const NFTA_TRACE_OIF = real.NFTA_TRACE_OIF
const NFTA_TRACE_OIFTYPE = real.NFTA_TRACE_OIFTYPE
const NFTA_TRACE_PAD = real.NFTA_TRACE_PAD
const NFTA_TRACE_POLICY = real.NFTA_TRACE_POLICY
const NFTA_TRACE_RULE_HANDLE = real.NFTA_TRACE_RULE_HANDLE
const NFTA_TRACE_TABLE = real.NFTA_TRACE_TABLE
const NFTA_TRACE_TRANSPORT_HEADER = real.NFTA_TRACE_TRANSPORT_HEADER
const NFTA_TRACE_TYPE = real.NFTA_TRACE_TYPE
const NFTA_TRACE_UNSPEC = real.NFTA_TRACE_UNSPEC
const NFTA_TRACE_VERDICT = real.NFTA_TRACE_VERDICT
const NFTA_VERDICT_CHAIN = real.NFTA_VERDICT_CHAIN
const NFTA_VERDICT_CODE = real.NFTA_VERDICT_CODE
const NFTA_VERDICT_UNSPEC = real.NFTA_VERDICT_UNSPEC
const NFT_BREAK = real.NFT_BREAK
const NFT_BYTEORDER_HTON = real.NFT_BYTEORDER_HTON
const NFT_BYTEORDER_NTOH = real.NFT_BYTEORDER_NTOH
const NFT_CMP_EQ = real.NFT_CMP_EQ
const NFT_CMP_GT = real.NFT_CMP_GT
const NFT_CMP_GTE = real.NFT_CMP_GTE
const NFT_CMP_LT = real.NFT_CMP_LT
const NFT_CMP_LTE = real.NFT_CMP_LTE
const NFT_CMP_NEQ = real.NFT_CMP_NEQ
const NFT_CONTINUE = real.NFT_CONTINUE
const NFT_CT_AVGPKT = real.NFT_CT_AVGPKT
const NFT_CT_BYTES = real.NFT_CT_BYTES
const NFT_CT_DIRECTION = real.NFT_CT_DIRECTION
const NFT_CT_DST = real.NFT_CT_DST
const NFT_CT_EVENTMASK = real.NFT_CT_EVENTMASK
const NFT_CT_EXPIRATION = real.NFT_CT_EXPIRATION
const NFT_CT_HELPER = real.NFT_CT_HELPER
const NFT_CT_L3PROTOCOL = real.NFT_CT_L3PROTOCOL
const NFT_CT_LABELS = real.NFT_CT_LABELS
const NFT_CT_MARK = real.NFT_CT_MARK
const NFT_CT_PKTS = real.NFT_CT_PKTS
const NFT_CT_PROTOCOL = real.NFT_CT_PROTOCOL
const NFT_CT_PROTO_DST = real.NFT_CT_PROTO_DST
const NFT_CT_PROTO_SRC = real.NFT_CT_PROTO_SRC
const NFT_CT_SECMARK = real.NFT_CT_SECMARK
const NFT_CT_SRC = real.NFT_CT_SRC
const NFT_CT_STATE = real.NFT_CT_STATE
const NFT_CT_STATUS = real.NFT_CT_STATUS
const NFT_CT_ZONE = real.NFT_CT_ZONE
const NFT_DATA_VALUE = real.NFT_DATA_VALUE
const NFT_DATA_VERDICT = real.NFT_DATA_VERDICT
const NFT_DYNSET_F_INV = real.NFT_DYNSET_F_INV
const NFT_DYNSET_OP_ADD = real.NFT_DYNSET_OP_ADD
const NFT_DYNSET_OP_UPDATE = real.NFT_DYNSET_OP_UPDATE
const NFT_EXTHDR_F_PRESENT = real.NFT_EXTHDR_F_PRESENT
const NFT_EXTHDR_OP_IPV6 = real.NFT_EXTHDR_OP_IPV6
const NFT_EXTHDR_OP_TCPOPT = real.NFT_EXTHDR_OP_TCPOPT
const NFT_FIB_RESULT_ADDRTYPE = real.NFT_FIB_RESULT_ADDRTYPE
const NFT_FIB_RESULT_OIF = real.NFT_FIB_RESULT_OIF
const NFT_FIB_RESULT_OIFNAME = real.NFT_FIB_RESULT_OIFNAME
const NFT_FIB_RESULT_UNSPEC = real.NFT_FIB_RESULT_UNSPEC
const NFT_GOTO = real.NFT_GOTO
const NFT_HASH_JENKINS = real.NFT_HASH_JENKINS
const NFT_HASH_SYM = real.NFT_HASH_SYM
const NFT_JUMP = real.NFT_JUMP
const NFT_LIMIT_F_INV = real.NFT_LIMIT_F_INV
const NFT_LIMIT_PKTS = real.NFT_LIMIT_PKTS
const NFT_LIMIT_PKT_BYTES = real.NFT_LIMIT_PKT_BYTES
const NFT_LOOKUP_F_INV = real.NFT_LOOKUP_F_INV
const NFT_META_BRI_IIFNAME = real.NFT_META_BRI_IIFNAME
const NFT_META_BRI_OIFNAME = real.NFT_META_BRI_OIFNAME
const NFT_META_CGROUP = real.NFT_META_CGROUP
const NFT_META_CPU = real.NFT_META_CPU
const NFT_META_IIF = real.NFT_META_IIF
const NFT_META_IIFGROUP = real.NFT_META_IIFGROUP
const NFT_META_IIFNAME = real.NFT_META_IIFNAME
const NFT_META_IIFTYPE = real.NFT_META_IIFTYPE
const NFT_META_L4PROTO = real.NFT_META_L4PROTO
const NFT_META_LEN = real.NFT_META_LEN
const NFT_META_MARK = real.NFT_META_MARK
const NFT_META_NFPROTO = real.NFT_META_NFPROTO
const NFT_META_NFTRACE = real.NFT_META_NFTRACE
const NFT_META_OIF = real.NFT_META_OIF
const NFT_META_OIFGROUP = real.NFT_META_OIFGROUP
const NFT_META_OIFNAME = real.NFT_META_OIFNAME
const NFT_META_OIFTYPE = real.NFT_META_OIFTYPE
const NFT_META_PKTTYPE = real.NFT_META_PKTTYPE
const NFT_META_PRANDOM = real.NFT_META_PRANDOM
const NFT_META_PRIORITY = real.NFT_META_PRIORITY
const NFT_META_PROTOCOL = real.NFT_META_PROTOCOL
const NFT_META_RTCLASSID = real.NFT_META_RTCLASSID
const NFT_META_SECMARK = real.NFT_META_SECMARK
const NFT_META_SKGID = real.NFT_META_SKGID
const NFT_META_SKUID = real.NFT_META_SKUID
const NFT_MSG_DELCHAIN = real.NFT_MSG_DELCHAIN
const NFT_MSG_DELOBJ = real.NFT_MSG_DELOBJ
const NFT_MSG_DELRULE = real.NFT_MSG_DELRULE
const NFT_MSG_DELSET = real.NFT_MSG_DELSET
const NFT_MSG_DELSETELEM = real.NFT_MSG_DELSETELEM
const NFT_MSG_DELTABLE = real.NFT_MSG_DELTABLE
const NFT_MSG_GETCHAIN = real.NFT_MSG_GETCHAIN
const NFT_MSG_GETGEN = real.NFT_MSG_GETGEN
const NFT_MSG_GETOBJ = real.NFT_MSG_GETOBJ
const NFT_MSG_GETOBJ_RESET = real.NFT_MSG_GETOBJ_RESET
const NFT_MSG_GETRULE = real.NFT_MSG_GETRULE
const NFT_MSG_GETSET = real.NFT_MSG_GETSET
const NFT_MSG_GETSETELEM = real.NFT_MSG_GETSETELEM
const NFT_MSG_GETTABLE = real.NFT_MSG_GETTABLE
const NFT_MSG_MAX = real.NFT_MSG_MAX
const NFT_MSG_NEWCHAIN = real.NFT_MSG_NEWCHAIN
const NFT_MSG_NEWGEN = real.NFT_MSG_NEWGEN
const NFT_MSG_NEWOBJ = real.NFT_MSG_NEWOBJ
const NFT_MSG_NEWRULE = real.NFT_MSG_NEWRULE
const NFT_MSG_NEWSET = real.NFT_MSG_NEWSET
const NFT_MSG_NEWSETELEM = real.NFT_MSG_NEWSETELEM
const NFT_MSG_NEWTABLE = real.NFT_MSG_NEWTABLE
const NFT_MSG_TRACE = real.NFT_MSG_TRACE
const NFT_NAT_DNAT = real.NFT_NAT_DNAT
const NFT_NAT_SNAT = real.NFT_NAT_SNAT
const NFT_NG_INCREMENTAL = real.NFT_NG_INCREMENTAL
const NFT_NG_RANDOM = real.NFT_NG_RANDOM
const NFT_PAYLOAD_CSUM_INET = real.NFT_PAYLOAD_CSUM_INET
const NFT_PAYLOAD_CSUM_NONE = real.NFT_PAYLOAD_CSUM_NONE
const NFT_PAYLOAD_L4CSUM_PSEUDOHDR = real.NFT_PAYLOAD_L4CSUM_PSEUDOHDR
const NFT_PAYLOAD_LL_HEADER = real.NFT_PAYLOAD_LL_HEADER
const NFT_PAYLOAD_NETWORK_HEADER = real.NFT_PAYLOAD_NETWORK_HEADER
const NFT_PAYLOAD_TRANSPORT_HEADER = real.NFT_PAYLOAD_TRANSPORT_HEADER
const NFT_QUOTA_F_DEPLETED = real.NFT_QUOTA_F_DEPLETED
const NFT_QUOTA_F_INV = real.NFT_QUOTA_F_INV
const NFT_RANGE_EQ = real.NFT_RANGE_EQ
const NFT_RANGE_NEQ = real.NFT_RANGE_NEQ
const NFT_REG32_00 = real.NFT_REG32_00
const NFT_REG32_01 = real.NFT_REG32_01
const NFT_REG32_02 = real.NFT_REG32_02
const NFT_REG32_03 = real.NFT_REG32_03
const NFT_REG32_04 = real.NFT_REG32_04
const NFT_REG32_05 = real.NFT_REG32_05
const NFT_REG32_06 = real.NFT_REG32_06
const NFT_REG32_07 = real.NFT_REG32_07
const NFT_REG32_08 = real.NFT_REG32_08
const NFT_REG32_09 = real.NFT_REG32_09
const NFT_REG32_10 = real.NFT_REG32_10
const NFT_REG32_11 = real.NFT_REG32_11
const NFT_REG32_12 = real.NFT_REG32_12
const NFT_REG32_13 = real.NFT_REG32_13
const NFT_REG32_14 = real.NFT_REG32_14
const NFT_REG32_15 = real.NFT_REG32_15
const NFT_REG_1 = real.NFT_REG_1
const NFT_REG_2 = real.NFT_REG_2
const NFT_REG_3 = real.NFT_REG_3
const NFT_REG_4 = real.NFT_REG_4
const NFT_REG_VERDICT = real.NFT_REG_VERDICT
const NFT_REJECT_ICMPX_ADMIN_PROHIBITED = real.NFT_REJECT_ICMPX_ADMIN_PROHIBITED
const NFT_REJECT_ICMPX_HOST_UNREACH = real.NFT_REJECT_ICMPX_HOST_UNREACH
const NFT_REJECT_ICMPX_NO_ROUTE = real.NFT_REJECT_ICMPX_NO_ROUTE
const NFT_REJECT_ICMPX_PORT_UNREACH = real.NFT_REJECT_ICMPX_PORT_UNREACH
const NFT_REJECT_ICMPX_UNREACH = real.NFT_REJECT_ICMPX_UNREACH
const NFT_REJECT_ICMP_UNREACH = real.NFT_REJECT_ICMP_UNREACH
const NFT_REJECT_TCP_RST = real.NFT_REJECT_TCP_RST
const NFT_RETURN = real.NFT_RETURN
const NFT_RT_CLASSID = real.NFT_RT_CLASSID
const NFT_RT_NEXTHOP4 = real.NFT_RT_NEXTHOP4
const NFT_RT_NEXTHOP6 = real.NFT_RT_NEXTHOP6
const NFT_RT_TCPMSS = real.NFT_RT_TCPMSS
const NFT_RULE_COMPAT_F_INV = real.NFT_RULE_COMPAT_F_INV
const NFT_RULE_COMPAT_F_MASK = real.NFT_RULE_COMPAT_F_MASK
const NFT_SET_ANONYMOUS = real.NFT_SET_ANONYMOUS
const NFT_SET_CONSTANT = real.NFT_SET_CONSTANT
const NFT_SET_ELEM_INTERVAL_END = real.NFT_SET_ELEM_INTERVAL_END
const NFT_SET_EVAL = real.NFT_SET_EVAL
const NFT_SET_INTERVAL = real.NFT_SET_INTERVAL
const NFT_SET_MAP = real.NFT_SET_MAP
const NFT_SET_OBJECT = real.NFT_SET_OBJECT
const NFT_SET_POL_MEMORY = real.NFT_SET_POL_MEMORY
const NFT_SET_POL_PERFORMANCE = real.NFT_SET_POL_PERFORMANCE
const NFT_SET_TIMEOUT = real.NFT_SET_TIMEOUT
const NFT_TABLE_F_DORMANT = real.NFT_TABLE_F_DORMANT
const NFT_TRACETYPE_POLICY = real.NFT_TRACETYPE_POLICY
const NFT_TRACETYPE_RETURN = real.NFT_TRACETYPE_RETURN
const NFT_TRACETYPE_RULE = real.NFT_TRACETYPE_RULE
const NFT_TRACETYPE_UNSPEC = real.NFT_TRACETYPE_UNSPEC
const NF_INET_FORWARD = real.NF_INET_FORWARD
const NF_INET_LOCAL_IN = real.NF_INET_LOCAL_IN
const NF_INET_LOCAL_OUT = real.NF_INET_LOCAL_OUT
const NF_INET_NUMHOOKS = real.NF_INET_NUMHOOKS
const NF_INET_POST_ROUTING = real.NF_INET_POST_ROUTING
const NF_INET_PRE_ROUTING = real.NF_INET_PRE_ROUTING
const NF_NETDEV_INGRESS = real.NF_NETDEV_INGRESS
const NF_NETDEV_NUMHOOKS = real.NF_NETDEV_NUMHOOKS
const NILFS_SUPER_MAGIC = real.NILFS_SUPER_MAGIC
const NL0 = real.NL0
const NL1 = real.NL1
const NLA_ALIGNTO = real.NLA_ALIGNTO
const NLA_F_NESTED = real.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = real.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = real.NLA_HDRLEN
const NLDLY = real.NLDLY
const NLMSG_ALIGNTO = real.NLMSG_ALIGNTO
const NLMSG_DONE = real.NLMSG_DONE
const NLMSG_ERROR = real.NLMSG_ERROR
const NLMSG_HDRLEN = real.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = real.NLMSG_MIN_TYPE
const NLMSG_NOOP = real.NLMSG_NOOP
const NLMSG_OVERRUN = real.NLMSG_OVERRUN
const NLM_F_ACK = real.NLM_F_ACK
const NLM_F_ACK_TLVS = real.NLM_F_ACK_TLVS
const NLM_F_APPEND = real.NLM_F_APPEND
const NLM_F_ATOMIC = real.NLM_F_ATOMIC
const NLM_F_CAPPED = real.NLM_F_CAPPED
const NLM_F_CREATE = real.NLM_F_CREATE
const NLM_F_DUMP = real.NLM_F_DUMP
const NLM_F_DUMP_FILTERED = real.NLM_F_DUMP_FILTERED
const NLM_F_DUMP_INTR = real.NLM_F_DUMP_INTR
const NLM_F_ECHO = real.NLM_F_ECHO
const NLM_F_EXCL = real.NLM_F_EXCL
const NLM_F_MATCH = real.NLM_F_MATCH
const NLM_F_MULTI = real.NLM_F_MULTI
const NLM_F_NONREC = real.NLM_F_NONREC
const NLM_F_REPLACE = real.NLM_F_REPLACE
const NLM_F_REQUEST = real.NLM_F_REQUEST
const NLM_F_ROOT = real.NLM_F_ROOT
const NOFLSH = real.NOFLSH
const NSFS_MAGIC = real.NSFS_MAGIC

var Nanosleep = real.Nanosleep

type NdUseroptmsg = real.NdUseroptmsg
type Nfgenmsg = real.Nfgenmsg
type NlAttr = real.NlAttr
type NlMsgerr = real.NlMsgerr
type NlMsghdr = real.NlMsghdr

var NsecToTimespec = real.NsecToTimespec
var NsecToTimeval = real.NsecToTimeval

const OCFS2_SUPER_MAGIC = real.OCFS2_SUPER_MAGIC
const OCRNL = real.OCRNL
const OFDEL = real.OFDEL
const OFILL = real.OFILL
const OLCUC = real.OLCUC
const ONLCR = real.ONLCR
const ONLRET = real.ONLRET
const ONOCR = real.ONOCR
const OPENPROM_SUPER_MAGIC = real.OPENPROM_SUPER_MAGIC
const OPOST = real.OPOST
const OVERLAYFS_SUPER_MAGIC = real.OVERLAYFS_SUPER_MAGIC
const O_ACCMODE = real.O_ACCMODE
const O_APPEND = real.O_APPEND
const O_ASYNC = real.O_ASYNC
const O_CLOEXEC = real.O_CLOEXEC
const O_CREAT = real.O_CREAT
const O_DIRECT = real.O_DIRECT
const O_DIRECTORY = real.O_DIRECTORY
const O_DSYNC = real.O_DSYNC
const O_EXCL = real.O_EXCL
const O_FSYNC = real.O_FSYNC
const O_LARGEFILE = real.O_LARGEFILE
const O_NDELAY = real.O_NDELAY
const O_NOATIME = real.O_NOATIME
const O_NOCTTY = real.O_NOCTTY
const O_NOFOLLOW = real.O_NOFOLLOW
const O_NONBLOCK = real.O_NONBLOCK
const O_PATH = real.O_PATH
const O_RDONLY = real.O_RDONLY
const O_RDWR = real.O_RDWR
const O_RSYNC = real.O_RSYNC
const O_SYNC = real.O_SYNC
const O_TMPFILE = real.O_TMPFILE
const O_TRUNC = real.O_TRUNC
const O_WRONLY = real.O_WRONLY

var Open = real.Open
var Openat = real.Openat

const PACKET_ADD_MEMBERSHIP = real.PACKET_ADD_MEMBERSHIP
const PACKET_AUXDATA = real.PACKET_AUXDATA
const PACKET_BROADCAST = real.PACKET_BROADCAST
const PACKET_COPY_THRESH = real.PACKET_COPY_THRESH
const PACKET_DROP_MEMBERSHIP = real.PACKET_DROP_MEMBERSHIP
const PACKET_FANOUT = real.PACKET_FANOUT
const PACKET_FANOUT_CBPF = real.PACKET_FANOUT_CBPF
const PACKET_FANOUT_CPU = real.PACKET_FANOUT_CPU
const PACKET_FANOUT_DATA = real.PACKET_FANOUT_DATA
const PACKET_FANOUT_EBPF = real.PACKET_FANOUT_EBPF
const PACKET_FANOUT_FLAG_DEFRAG = real.PACKET_FANOUT_FLAG_DEFRAG
const PACKET_FANOUT_FLAG_ROLLOVER = real.PACKET_FANOUT_FLAG_ROLLOVER
const PACKET_FANOUT_FLAG_UNIQUEID = real.PACKET_FANOUT_FLAG_UNIQUEID
const PACKET_FANOUT_HASH = real.PACKET_FANOUT_HASH
const PACKET_FANOUT_LB = real.PACKET_FANOUT_LB
const PACKET_FANOUT_QM = real.PACKET_FANOUT_QM
const PACKET_FANOUT_RND = real.PACKET_FANOUT_RND
const PACKET_FANOUT_ROLLOVER = real.PACKET_FANOUT_ROLLOVER
const PACKET_FASTROUTE = real.PACKET_FASTROUTE
const PACKET_HDRLEN = real.PACKET_HDRLEN
const PACKET_HOST = real.PACKET_HOST
const PACKET_IGNORE_OUTGOING = real.PACKET_IGNORE_OUTGOING
const PACKET_KERNEL = real.PACKET_KERNEL
const PACKET_LOOPBACK = real.PACKET_LOOPBACK
const PACKET_LOSS = real.PACKET_LOSS
const PACKET_MR_ALLMULTI = real.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = real.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = real.PACKET_MR_PROMISC
const PACKET_MR_UNICAST = real.PACKET_MR_UNICAST
const PACKET_MULTICAST = real.PACKET_MULTICAST
const PACKET_ORIGDEV = real.PACKET_ORIGDEV
const PACKET_OTHERHOST = real.PACKET_OTHERHOST
const PACKET_OUTGOING = real.PACKET_OUTGOING
const PACKET_QDISC_BYPASS = real.PACKET_QDISC_BYPASS
const PACKET_RECV_OUTPUT = real.PACKET_RECV_OUTPUT
const PACKET_RESERVE = real.PACKET_RESERVE
const PACKET_ROLLOVER_STATS = real.PACKET_ROLLOVER_STATS
const PACKET_RX_RING = real.PACKET_RX_RING
const PACKET_STATISTICS = real.PACKET_STATISTICS
const PACKET_TIMESTAMP = real.PACKET_TIMESTAMP
const PACKET_TX_HAS_OFF = real.PACKET_TX_HAS_OFF
const PACKET_TX_RING = real.PACKET_TX_RING
const PACKET_TX_TIMESTAMP = real.PACKET_TX_TIMESTAMP
const PACKET_USER = real.PACKET_USER
const PACKET_VERSION = real.PACKET_VERSION
const PACKET_VNET_HDR = real.PACKET_VNET_HDR
const PARENB = real.PARENB
const PARITY_CRC16_PR0 = real.PARITY_CRC16_PR0
const PARITY_CRC16_PR0_CCITT = real.PARITY_CRC16_PR0_CCITT
const PARITY_CRC16_PR1 = real.PARITY_CRC16_PR1
const PARITY_CRC16_PR1_CCITT = real.PARITY_CRC16_PR1_CCITT
const PARITY_CRC32_PR0_CCITT = real.PARITY_CRC32_PR0_CCITT
const PARITY_CRC32_PR1_CCITT = real.PARITY_CRC32_PR1_CCITT
const PARITY_DEFAULT = real.PARITY_DEFAULT
const PARITY_NONE = real.PARITY_NONE
const PARMRK = real.PARMRK
const PARODD = real.PARODD
const PENDIN = real.PENDIN
const PERF_CONTEXT_GUEST = real.PERF_CONTEXT_GUEST
const PERF_CONTEXT_GUEST_KERNEL = real.PERF_CONTEXT_GUEST_KERNEL
const PERF_CONTEXT_GUEST_USER = real.PERF_CONTEXT_GUEST_USER
const PERF_CONTEXT_HV = real.PERF_CONTEXT_HV
const PERF_CONTEXT_KERNEL = real.PERF_CONTEXT_KERNEL
const PERF_CONTEXT_USER = real.PERF_CONTEXT_USER
const PERF_COUNT_HW_BRANCH_INSTRUCTIONS = real.PERF_COUNT_HW_BRANCH_INSTRUCTIONS
const PERF_COUNT_HW_BRANCH_MISSES = real.PERF_COUNT_HW_BRANCH_MISSES
const PERF_COUNT_HW_BUS_CYCLES = real.PERF_COUNT_HW_BUS_CYCLES
const PERF_COUNT_HW_CACHE_BPU = real.PERF_COUNT_HW_CACHE_BPU
const PERF_COUNT_HW_CACHE_DTLB = real.PERF_COUNT_HW_CACHE_DTLB
const PERF_COUNT_HW_CACHE_ITLB = real.PERF_COUNT_HW_CACHE_ITLB
const PERF_COUNT_HW_CACHE_L1D = real.PERF_COUNT_HW_CACHE_L1D
const PERF_COUNT_HW_CACHE_L1I = real.PERF_COUNT_HW_CACHE_L1I
const PERF_COUNT_HW_CACHE_LL = real.PERF_COUNT_HW_CACHE_LL
const PERF_COUNT_HW_CACHE_MISSES = real.PERF_COUNT_HW_CACHE_MISSES
const PERF_COUNT_HW_CACHE_NODE = real.PERF_COUNT_HW_CACHE_NODE
const PERF_COUNT_HW_CACHE_OP_PREFETCH = real.PERF_COUNT_HW_CACHE_OP_PREFETCH
const PERF_COUNT_HW_CACHE_OP_READ = real.PERF_COUNT_HW_CACHE_OP_READ
const PERF_COUNT_HW_CACHE_OP_WRITE = real.PERF_COUNT_HW_CACHE_OP_WRITE
const PERF_COUNT_HW_CACHE_REFERENCES = real.PERF_COUNT_HW_CACHE_REFERENCES
const PERF_COUNT_HW_CACHE_RESULT_ACCESS = real.PERF_COUNT_HW_CACHE_RESULT_ACCESS
const PERF_COUNT_HW_CACHE_RESULT_MISS = real.PERF_COUNT_HW_CACHE_RESULT_MISS
const PERF_COUNT_HW_CPU_CYCLES = real.PERF_COUNT_HW_CPU_CYCLES
const PERF_COUNT_HW_INSTRUCTIONS = real.PERF_COUNT_HW_INSTRUCTIONS
const PERF_COUNT_HW_REF_CPU_CYCLES = real.PERF_COUNT_HW_REF_CPU_CYCLES
const PERF_COUNT_HW_STALLED_CYCLES_BACKEND = real.PERF_COUNT_HW_STALLED_CYCLES_BACKEND
const PERF_COUNT_HW_STALLED_CYCLES_FRONTEND = real.PERF_COUNT_HW_STALLED_CYCLES_FRONTEND
const PERF_COUNT_SW_ALIGNMENT_FAULTS = real.PERF_COUNT_SW_ALIGNMENT_FAULTS
const PERF_COUNT_SW_BPF_OUTPUT = real.PERF_COUNT_SW_BPF_OUTPUT
const PERF_COUNT_SW_CONTEXT_SWITCHES = real.PERF_COUNT_SW_CONTEXT_SWITCHES
const PERF_COUNT_SW_CPU_CLOCK = real.PERF_COUNT_SW_CPU_CLOCK
const PERF_COUNT_SW_CPU_MIGRATIONS = real.PERF_COUNT_SW_CPU_MIGRATIONS
const PERF_COUNT_SW_DUMMY = real.PERF_COUNT_SW_DUMMY
const PERF_COUNT_SW_EMULATION_FAULTS = real.PERF_COUNT_SW_EMULATION_FAULTS
const PERF_COUNT_SW_PAGE_FAULTS = real.PERF_COUNT_SW_PAGE_FAULTS
const PERF_COUNT_SW_PAGE_FAULTS_MAJ = real.PERF_COUNT_SW_PAGE_FAULTS_MAJ
const PERF_COUNT_SW_PAGE_FAULTS_MIN = real.PERF_COUNT_SW_PAGE_FAULTS_MIN
const PERF_COUNT_SW_TASK_CLOCK = real.PERF_COUNT_SW_TASK_CLOCK
const PERF_EVENT_IOC_DISABLE = real.PERF_EVENT_IOC_DISABLE
const PERF_EVENT_IOC_ENABLE = real.PERF_EVENT_IOC_ENABLE
const PERF_EVENT_IOC_ID = real.PERF_EVENT_IOC_ID
const PERF_EVENT_IOC_MODIFY_ATTRIBUTES = real.PERF_EVENT_IOC_MODIFY_ATTRIBUTES
const PERF_EVENT_IOC_PAUSE_OUTPUT = real.PERF_EVENT_IOC_PAUSE_OUTPUT
const PERF_EVENT_IOC_PERIOD = real.PERF_EVENT_IOC_PERIOD
const PERF_EVENT_IOC_QUERY_BPF = real.PERF_EVENT_IOC_QUERY_BPF
const PERF_EVENT_IOC_REFRESH = real.PERF_EVENT_IOC_REFRESH
const PERF_EVENT_IOC_RESET = real.PERF_EVENT_IOC_RESET
const PERF_EVENT_IOC_SET_BPF = real.PERF_EVENT_IOC_SET_BPF
const PERF_EVENT_IOC_SET_FILTER = real.PERF_EVENT_IOC_SET_FILTER
const PERF_EVENT_IOC_SET_OUTPUT = real.PERF_EVENT_IOC_SET_OUTPUT
const PERF_FLAG_FD_CLOEXEC = real.PERF_FLAG_FD_CLOEXEC
const PERF_FLAG_FD_NO_GROUP = real.PERF_FLAG_FD_NO_GROUP
const PERF_FLAG_FD_OUTPUT = real.PERF_FLAG_FD_OUTPUT
const PERF_FLAG_PID_CGROUP = real.PERF_FLAG_PID_CGROUP
const PERF_FORMAT_GROUP = real.PERF_FORMAT_GROUP
const PERF_FORMAT_ID = real.PERF_FORMAT_ID
const PERF_FORMAT_TOTAL_TIME_ENABLED = real.PERF_FORMAT_TOTAL_TIME_ENABLED
const PERF_FORMAT_TOTAL_TIME_RUNNING = real.PERF_FORMAT_TOTAL_TIME_RUNNING
const PERF_IOC_FLAG_GROUP = real.PERF_IOC_FLAG_GROUP
const PERF_RECORD_AUX = real.PERF_RECORD_AUX
const PERF_RECORD_COMM = real.PERF_RECORD_COMM
const PERF_RECORD_EXIT = real.PERF_RECORD_EXIT
const PERF_RECORD_FORK = real.PERF_RECORD_FORK
const PERF_RECORD_ITRACE_START = real.PERF_RECORD_ITRACE_START
const PERF_RECORD_LOST = real.PERF_RECORD_LOST
const PERF_RECORD_LOST_SAMPLES = real.PERF_RECORD_LOST_SAMPLES
const PERF_RECORD_MMAP = real.PERF_RECORD_MMAP
const PERF_RECORD_MMAP2 = real.PERF_RECORD_MMAP2
const PERF_RECORD_NAMESPACES = real.PERF_RECORD_NAMESPACES
const PERF_RECORD_READ = real.PERF_RECORD_READ
const PERF_RECORD_SAMPLE = real.PERF_RECORD_SAMPLE
const PERF_RECORD_SWITCH = real.PERF_RECORD_SWITCH
const PERF_RECORD_SWITCH_CPU_WIDE = real.PERF_RECORD_SWITCH_CPU_WIDE
const PERF_RECORD_THROTTLE = real.PERF_RECORD_THROTTLE
const PERF_RECORD_UNTHROTTLE = real.PERF_RECORD_UNTHROTTLE
const PERF_SAMPLE_ADDR = real.PERF_SAMPLE_ADDR
const PERF_SAMPLE_BRANCH_ABORT_TX = real.PERF_SAMPLE_BRANCH_ABORT_TX
const PERF_SAMPLE_BRANCH_ANY = real.PERF_SAMPLE_BRANCH_ANY
const PERF_SAMPLE_BRANCH_ANY_CALL = real.PERF_SAMPLE_BRANCH_ANY_CALL
const PERF_SAMPLE_BRANCH_ANY_RETURN = real.PERF_SAMPLE_BRANCH_ANY_RETURN
const PERF_SAMPLE_BRANCH_CALL = real.PERF_SAMPLE_BRANCH_CALL
const PERF_SAMPLE_BRANCH_CALL_STACK = real.PERF_SAMPLE_BRANCH_CALL_STACK
const PERF_SAMPLE_BRANCH_COND = real.PERF_SAMPLE_BRANCH_COND
const PERF_SAMPLE_BRANCH_HV = real.PERF_SAMPLE_BRANCH_HV
const PERF_SAMPLE_BRANCH_IND_CALL = real.PERF_SAMPLE_BRANCH_IND_CALL
const PERF_SAMPLE_BRANCH_IND_JUMP = real.PERF_SAMPLE_BRANCH_IND_JUMP
const PERF_SAMPLE_BRANCH_IN_TX = real.PERF_SAMPLE_BRANCH_IN_TX
const PERF_SAMPLE_BRANCH_KERNEL = real.PERF_SAMPLE_BRANCH_KERNEL
const PERF_SAMPLE_BRANCH_NO_CYCLES = real.PERF_SAMPLE_BRANCH_NO_CYCLES
const PERF_SAMPLE_BRANCH_NO_FLAGS = real.PERF_SAMPLE_BRANCH_NO_FLAGS
const PERF_SAMPLE_BRANCH_NO_TX = real.PERF_SAMPLE_BRANCH_NO_TX
const PERF_SAMPLE_BRANCH_STACK = real.PERF_SAMPLE_BRANCH_STACK
const PERF_SAMPLE_BRANCH_TYPE_SAVE = real.PERF_SAMPLE_BRANCH_TYPE_SAVE
const PERF_SAMPLE_BRANCH_USER = real.PERF_SAMPLE_BRANCH_USER
const PERF_SAMPLE_CALLCHAIN = real.PERF_SAMPLE_CALLCHAIN
const PERF_SAMPLE_CPU = real.PERF_SAMPLE_CPU
const PERF_SAMPLE_ID = real.PERF_SAMPLE_ID
const PERF_SAMPLE_IP = real.PERF_SAMPLE_IP
const PERF_SAMPLE_PERIOD = real.PERF_SAMPLE_PERIOD
const PERF_SAMPLE_RAW = real.PERF_SAMPLE_RAW
const PERF_SAMPLE_READ = real.PERF_SAMPLE_READ
const PERF_SAMPLE_STREAM_ID = real.PERF_SAMPLE_STREAM_ID
const PERF_SAMPLE_TID = real.PERF_SAMPLE_TID
const PERF_SAMPLE_TIME = real.PERF_SAMPLE_TIME
const PERF_TYPE_BREAKPOINT = real.PERF_TYPE_BREAKPOINT
const PERF_TYPE_HARDWARE = real.PERF_TYPE_HARDWARE
const PERF_TYPE_HW_CACHE = real.PERF_TYPE_HW_CACHE
const PERF_TYPE_RAW = real.PERF_TYPE_RAW
const PERF_TYPE_SOFTWARE = real.PERF_TYPE_SOFTWARE
const PERF_TYPE_TRACEPOINT = real.PERF_TYPE_TRACEPOINT
const PIPEFS_MAGIC = real.PIPEFS_MAGIC
const POLLERR = real.POLLERR
const POLLHUP = real.POLLHUP
const POLLIN = real.POLLIN
const POLLNVAL = real.POLLNVAL
const POLLOUT = real.POLLOUT
const POLLPRI = real.POLLPRI
const POLLRDHUP = real.POLLRDHUP
const PPPIOCATTACH = real.PPPIOCATTACH
const PPPIOCATTCHAN = real.PPPIOCATTCHAN
const PPPIOCCONNECT = real.PPPIOCCONNECT
const PPPIOCDETACH = real.PPPIOCDETACH
const PPPIOCDISCONN = real.PPPIOCDISCONN
const PPPIOCGASYNCMAP = real.PPPIOCGASYNCMAP
const PPPIOCGCHAN = real.PPPIOCGCHAN
const PPPIOCGDEBUG = real.PPPIOCGDEBUG
const PPPIOCGFLAGS = real.PPPIOCGFLAGS
const PPPIOCGIDLE = real.PPPIOCGIDLE
const PPPIOCGL2TPSTATS = real.PPPIOCGL2TPSTATS
const PPPIOCGMRU = real.PPPIOCGMRU
const PPPIOCGNPMODE = real.PPPIOCGNPMODE
const PPPIOCGRASYNCMAP = real.PPPIOCGRASYNCMAP
const PPPIOCGUNIT = real.PPPIOCGUNIT
const PPPIOCGXASYNCMAP = real.PPPIOCGXASYNCMAP
const PPPIOCNEWUNIT = real.PPPIOCNEWUNIT
const PPPIOCSACTIVE = real.PPPIOCSACTIVE
const PPPIOCSASYNCMAP = real.PPPIOCSASYNCMAP
const PPPIOCSCOMPRESS = real.PPPIOCSCOMPRESS
const PPPIOCSDEBUG = real.PPPIOCSDEBUG
const PPPIOCSFLAGS = real.PPPIOCSFLAGS
const PPPIOCSMAXCID = real.PPPIOCSMAXCID
const PPPIOCSMRRU = real.PPPIOCSMRRU
const PPPIOCSMRU = real.PPPIOCSMRU
const PPPIOCSNPMODE = real.PPPIOCSNPMODE
const PPPIOCSPASS = real.PPPIOCSPASS
const PPPIOCSRASYNCMAP = real.PPPIOCSRASYNCMAP
const PPPIOCSXASYNCMAP = real.PPPIOCSXASYNCMAP
const PPPIOCXFERUNIT = real.PPPIOCXFERUNIT
const PRIO_PGRP = real.PRIO_PGRP
const PRIO_PROCESS = real.PRIO_PROCESS
const PRIO_USER = real.PRIO_USER
const PROC_SUPER_MAGIC = real.PROC_SUPER_MAGIC
const PROT_EXEC = real.PROT_EXEC
const PROT_GROWSDOWN = real.PROT_GROWSDOWN
const PROT_GROWSUP = real.PROT_GROWSUP
const PROT_NONE = real.PROT_NONE
const PROT_READ = real.PROT_READ
const PROT_WRITE = real.PROT_WRITE
const PR_CAPBSET_DROP = real.PR_CAPBSET_DROP
const PR_CAPBSET_READ = real.PR_CAPBSET_READ
const PR_CAP_AMBIENT = real.PR_CAP_AMBIENT
const PR_CAP_AMBIENT_CLEAR_ALL = real.PR_CAP_AMBIENT_CLEAR_ALL
const PR_CAP_AMBIENT_IS_SET = real.PR_CAP_AMBIENT_IS_SET
const PR_CAP_AMBIENT_LOWER = real.PR_CAP_AMBIENT_LOWER
const PR_CAP_AMBIENT_RAISE = real.PR_CAP_AMBIENT_RAISE
const PR_ENDIAN_BIG = real.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = real.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = real.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = real.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = real.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = real.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = real.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = real.PR_FP_EXC_DIV
const PR_FP_EXC_INV = real.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = real.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = real.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = real.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = real.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = real.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = real.PR_FP_EXC_UND
const PR_FP_MODE_FR = real.PR_FP_MODE_FR
const PR_FP_MODE_FRE = real.PR_FP_MODE_FRE
const PR_GET_CHILD_SUBREAPER = real.PR_GET_CHILD_SUBREAPER
const PR_GET_DUMPABLE = real.PR_GET_DUMPABLE
const PR_GET_ENDIAN = real.PR_GET_ENDIAN
const PR_GET_FPEMU = real.PR_GET_FPEMU
const PR_GET_FPEXC = real.PR_GET_FPEXC
const PR_GET_FP_MODE = real.PR_GET_FP_MODE
const PR_GET_KEEPCAPS = real.PR_GET_KEEPCAPS
const PR_GET_NAME = real.PR_GET_NAME
const PR_GET_NO_NEW_PRIVS = real.PR_GET_NO_NEW_PRIVS
const PR_GET_PDEATHSIG = real.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = real.PR_GET_SECCOMP
const PR_GET_SECUREBITS = real.PR_GET_SECUREBITS
const PR_GET_SPECULATION_CTRL = real.PR_GET_SPECULATION_CTRL
const PR_GET_THP_DISABLE = real.PR_GET_THP_DISABLE
const PR_GET_TID_ADDRESS = real.PR_GET_TID_ADDRESS
const PR_GET_TIMERSLACK = real.PR_GET_TIMERSLACK
const PR_GET_TIMING = real.PR_GET_TIMING
const PR_GET_TSC = real.PR_GET_TSC
const PR_GET_UNALIGN = real.PR_GET_UNALIGN
const PR_MCE_KILL = real.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = real.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = real.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = real.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = real.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = real.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = real.PR_MCE_KILL_SET
const PR_MPX_DISABLE_MANAGEMENT = real.PR_MPX_DISABLE_MANAGEMENT
const PR_MPX_ENABLE_MANAGEMENT = real.PR_MPX_ENABLE_MANAGEMENT
const PR_PAC_APDAKEY = real.PR_PAC_APDAKEY
const PR_PAC_APDBKEY = real.PR_PAC_APDBKEY
const PR_PAC_APGAKEY = real.PR_PAC_APGAKEY
const PR_PAC_APIAKEY = real.PR_PAC_APIAKEY
const PR_PAC_APIBKEY = real.PR_PAC_APIBKEY
const PR_PAC_RESET_KEYS = real.PR_PAC_RESET_KEYS
const PR_SET_CHILD_SUBREAPER = real.PR_SET_CHILD_SUBREAPER
const PR_SET_DUMPABLE = real.PR_SET_DUMPABLE
const PR_SET_ENDIAN = real.PR_SET_ENDIAN
const PR_SET_FPEMU = real.PR_SET_FPEMU
const PR_SET_FPEXC = real.PR_SET_FPEXC
const PR_SET_FP_MODE = real.PR_SET_FP_MODE
const PR_SET_KEEPCAPS = real.PR_SET_KEEPCAPS
const PR_SET_MM = real.PR_SET_MM
const PR_SET_MM_ARG_END = real.PR_SET_MM_ARG_END
const PR_SET_MM_ARG_START = real.PR_SET_MM_ARG_START
const PR_SET_MM_AUXV = real.PR_SET_MM_AUXV
const PR_SET_MM_BRK = real.PR_SET_MM_BRK
const PR_SET_MM_END_CODE = real.PR_SET_MM_END_CODE
const PR_SET_MM_END_DATA = real.PR_SET_MM_END_DATA
const PR_SET_MM_ENV_END = real.PR_SET_MM_ENV_END
const PR_SET_MM_ENV_START = real.PR_SET_MM_ENV_START
const PR_SET_MM_EXE_FILE = real.PR_SET_MM_EXE_FILE
const PR_SET_MM_MAP = real.PR_SET_MM_MAP
const PR_SET_MM_MAP_SIZE = real.PR_SET_MM_MAP_SIZE
const PR_SET_MM_START_BRK = real.PR_SET_MM_START_BRK
const PR_SET_MM_START_CODE = real.PR_SET_MM_START_CODE
const PR_SET_MM_START_DATA = real.PR_SET_MM_START_DATA
const PR_SET_MM_START_STACK = real.PR_SET_MM_START_STACK
const PR_SET_NAME = real.PR_SET_NAME
const PR_SET_NO_NEW_PRIVS = real.PR_SET_NO_NEW_PRIVS
const PR_SET_PDEATHSIG = real.PR_SET_PDEATHSIG
const PR_SET_PTRACER = real.PR_SET_PTRACER
const PR_SET_PTRACER_ANY = real.PR_SET_PTRACER_ANY
const PR_SET_SECCOMP = real.PR_SET_SECCOMP
const PR_SET_SECUREBITS = real.PR_SET_SECUREBITS
const PR_SET_SPECULATION_CTRL = real.PR_SET_SPECULATION_CTRL
const PR_SET_THP_DISABLE = real.PR_SET_THP_DISABLE
const PR_SET_TIMERSLACK = real.PR_SET_TIMERSLACK
const PR_SET_TIMING = real.PR_SET_TIMING
const PR_SET_TSC = real.PR_SET_TSC
const PR_SET_UNALIGN = real.PR_SET_UNALIGN
const PR_SPEC_DISABLE = real.PR_SPEC_DISABLE
const PR_SPEC_ENABLE = real.PR_SPEC_ENABLE
const PR_SPEC_FORCE_DISABLE = real.PR_SPEC_FORCE_DISABLE
const PR_SPEC_INDIRECT_BRANCH = real.PR_SPEC_INDIRECT_BRANCH
const PR_SPEC_NOT_AFFECTED = real.PR_SPEC_NOT_AFFECTED
const PR_SPEC_PRCTL = real.PR_SPEC_PRCTL
const PR_SPEC_STORE_BYPASS = real.PR_SPEC_STORE_BYPASS
const PR_SVE_GET_VL = real.PR_SVE_GET_VL
const PR_SVE_SET_VL = real.PR_SVE_SET_VL
const PR_SVE_SET_VL_ONEXEC = real.PR_SVE_SET_VL_ONEXEC
const PR_SVE_VL_INHERIT = real.PR_SVE_VL_INHERIT
const PR_SVE_VL_LEN_MASK = real.PR_SVE_VL_LEN_MASK
const PR_TASK_PERF_EVENTS_DISABLE = real.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = real.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = real.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = real.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = real.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = real.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = real.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = real.PR_UNALIGN_SIGBUS
const PSTOREFS_MAGIC = real.PSTOREFS_MAGIC
const PTRACE_ARCH_PRCTL = real.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = real.PTRACE_ATTACH
const PTRACE_CONT = real.PTRACE_CONT
const PTRACE_DETACH = real.PTRACE_DETACH
const PTRACE_EVENT_CLONE = real.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = real.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = real.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = real.PTRACE_EVENT_FORK
const PTRACE_EVENT_SECCOMP = real.PTRACE_EVENT_SECCOMP
const PTRACE_EVENT_STOP = real.PTRACE_EVENT_STOP
const PTRACE_EVENT_VFORK = real.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = real.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = real.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = real.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = real.PTRACE_GETFPXREGS
const PTRACE_GETREGS = real.PTRACE_GETREGS
const PTRACE_GETREGSET = real.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = real.PTRACE_GETSIGINFO
const PTRACE_GETSIGMASK = real.PTRACE_GETSIGMASK
const PTRACE_GET_THREAD_AREA = real.PTRACE_GET_THREAD_AREA
const PTRACE_INTERRUPT = real.PTRACE_INTERRUPT
const PTRACE_KILL = real.PTRACE_KILL
const PTRACE_LISTEN = real.PTRACE_LISTEN
const PTRACE_OLDSETOPTIONS = real.PTRACE_OLDSETOPTIONS
const PTRACE_O_EXITKILL = real.PTRACE_O_EXITKILL
const PTRACE_O_MASK = real.PTRACE_O_MASK
const PTRACE_O_SUSPEND_SECCOMP = real.PTRACE_O_SUSPEND_SECCOMP
const PTRACE_O_TRACECLONE = real.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = real.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = real.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = real.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESECCOMP = real.PTRACE_O_TRACESECCOMP
const PTRACE_O_TRACESYSGOOD = real.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = real.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = real.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = real.PTRACE_PEEKDATA
const PTRACE_PEEKSIGINFO = real.PTRACE_PEEKSIGINFO
const PTRACE_PEEKSIGINFO_SHARED = real.PTRACE_PEEKSIGINFO_SHARED
const PTRACE_PEEKTEXT = real.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = real.PTRACE_PEEKUSR
const PTRACE_POKEDATA = real.PTRACE_POKEDATA
const PTRACE_POKETEXT = real.PTRACE_POKETEXT
const PTRACE_POKEUSR = real.PTRACE_POKEUSR
const PTRACE_SECCOMP_GET_FILTER = real.PTRACE_SECCOMP_GET_FILTER
const PTRACE_SECCOMP_GET_METADATA = real.PTRACE_SECCOMP_GET_METADATA
const PTRACE_SEIZE = real.PTRACE_SEIZE
const PTRACE_SETFPREGS = real.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = real.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = real.PTRACE_SETOPTIONS
const PTRACE_SETREGS = real.PTRACE_SETREGS
const PTRACE_SETREGSET = real.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = real.PTRACE_SETSIGINFO
const PTRACE_SETSIGMASK = real.PTRACE_SETSIGMASK
const PTRACE_SET_THREAD_AREA = real.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = real.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = real.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = real.PTRACE_SYSCALL
const PTRACE_SYSEMU = real.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = real.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = real.PTRACE_TRACEME

type PacketMreq = real.PacketMreq

var ParseDirent = real.ParseDirent
var ParseSocketControlMessage = real.ParseSocketControlMessage
var ParseUnixCredentials = real.ParseUnixCredentials
var ParseUnixRights = real.ParseUnixRights

const PathMax = real.PathMax

var Pause = real.Pause

const PerfBitComm = real.PerfBitComm
const PerfBitCommExec = real.PerfBitCommExec
const PerfBitContextSwitch = real.PerfBitContextSwitch
const PerfBitDisabled = real.PerfBitDisabled
const PerfBitEnableOnExec = real.PerfBitEnableOnExec
const PerfBitExcludeCallchainKernel = real.PerfBitExcludeCallchainKernel
const PerfBitExcludeCallchainUser = real.PerfBitExcludeCallchainUser
const PerfBitExcludeGuest = real.PerfBitExcludeGuest
const PerfBitExcludeHost = real.PerfBitExcludeHost
const PerfBitExcludeHv = real.PerfBitExcludeHv
const PerfBitExcludeIdle = real.PerfBitExcludeIdle
const PerfBitExcludeKernel = real.PerfBitExcludeKernel
const PerfBitExcludeUser = real.PerfBitExcludeUser
const PerfBitExclusive = real.PerfBitExclusive
const PerfBitFreq = real.PerfBitFreq
const PerfBitInherit = real.PerfBitInherit
const PerfBitInheritStat = real.PerfBitInheritStat
const PerfBitMmap = real.PerfBitMmap
const PerfBitMmap2 = real.PerfBitMmap2
const PerfBitMmapData = real.PerfBitMmapData
const PerfBitPinned = real.PerfBitPinned
const PerfBitPreciseIPBit1 = real.PerfBitPreciseIPBit1
const PerfBitPreciseIPBit2 = real.PerfBitPreciseIPBit2
const PerfBitSampleIDAll = real.PerfBitSampleIDAll
const PerfBitTask = real.PerfBitTask
const PerfBitUseClockID = real.PerfBitUseClockID
const PerfBitWatermark = real.PerfBitWatermark

type PerfEventAttr = real.PerfEventAttr
type PerfEventMmapPage = real.PerfEventMmapPage

var PerfEventOpen = real.PerfEventOpen
var Pipe = real.Pipe
var Pipe2 = real.Pipe2
var PivotRoot = real.PivotRoot
var Poll = real.Poll

type PollFd = real.PollFd

var Ppoll = real.Ppoll
var Prctl = real.Prctl
var Pread = real.Pread
var Pselect = real.Pselect
var PtraceAttach = real.PtraceAttach
var PtraceCont = real.PtraceCont
var PtraceDetach = real.PtraceDetach
var PtraceGetEventMsg = real.PtraceGetEventMsg
var PtraceGetRegs = real.PtraceGetRegs
var PtraceGetRegs386 = real.PtraceGetRegs386
var PtraceGetRegsAmd64 = real.PtraceGetRegsAmd64
var PtracePeekData = real.PtracePeekData
var PtracePeekText = real.PtracePeekText
var PtracePeekUser = real.PtracePeekUser
var PtracePokeData = real.PtracePokeData
var PtracePokeText = real.PtracePokeText
var PtracePokeUser = real.PtracePokeUser

type PtraceRegs = real.PtraceRegs
type PtraceRegs386 = real.PtraceRegs386
type PtraceRegsAmd64 = real.PtraceRegsAmd64

var PtraceSetOptions = real.PtraceSetOptions
var PtraceSetRegs = real.PtraceSetRegs
var PtraceSetRegs386 = real.PtraceSetRegs386
var PtraceSetRegsAmd64 = real.PtraceSetRegsAmd64
var PtraceSingleStep = real.PtraceSingleStep
var PtraceSyscall = real.PtraceSyscall
var Pwrite = real.Pwrite

const QNX4_SUPER_MAGIC = real.QNX4_SUPER_MAGIC
const QNX6_SUPER_MAGIC = real.QNX6_SUPER_MAGIC
const RAMFS_MAGIC = real.RAMFS_MAGIC
const RDTGROUP_SUPER_MAGIC = real.RDTGROUP_SUPER_MAGIC
const REISERFS_SUPER_MAGIC = real.REISERFS_SUPER_MAGIC
const RENAME_EXCHANGE = real.RENAME_EXCHANGE
const RENAME_NOREPLACE = real.RENAME_NOREPLACE
const RENAME_WHITEOUT = real.RENAME_WHITEOUT
const RLIMIT_AS = real.RLIMIT_AS
const RLIMIT_CORE = real.RLIMIT_CORE
const RLIMIT_CPU = real.RLIMIT_CPU
const RLIMIT_DATA = real.RLIMIT_DATA
const RLIMIT_FSIZE = real.RLIMIT_FSIZE
const RLIMIT_LOCKS = real.RLIMIT_LOCKS
const RLIMIT_MEMLOCK = real.RLIMIT_MEMLOCK
const RLIMIT_MSGQUEUE = real.RLIMIT_MSGQUEUE
const RLIMIT_NICE = real.RLIMIT_NICE
const RLIMIT_NOFILE = real.RLIMIT_NOFILE
const RLIMIT_NPROC = real.RLIMIT_NPROC
const RLIMIT_RSS = real.RLIMIT_RSS
const RLIMIT_RTPRIO = real.RLIMIT_RTPRIO
const RLIMIT_RTTIME = real.RLIMIT_RTTIME
const RLIMIT_SIGPENDING = real.RLIMIT_SIGPENDING
const RLIMIT_STACK = real.RLIMIT_STACK
const RLIM_INFINITY = real.RLIM_INFINITY
const RNDADDENTROPY = real.RNDADDENTROPY
const RNDADDTOENTCNT = real.RNDADDTOENTCNT
const RNDCLEARPOOL = real.RNDCLEARPOOL
const RNDGETENTCNT = real.RNDGETENTCNT
const RNDGETPOOL = real.RNDGETPOOL
const RNDRESEEDCRNG = real.RNDRESEEDCRNG
const RNDZAPENTCNT = real.RNDZAPENTCNT
const RTAX_ADVMSS = real.RTAX_ADVMSS
const RTAX_CC_ALGO = real.RTAX_CC_ALGO
const RTAX_CWND = real.RTAX_CWND
const RTAX_FASTOPEN_NO_COOKIE = real.RTAX_FASTOPEN_NO_COOKIE
const RTAX_FEATURES = real.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = real.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = real.RTAX_FEATURE_ECN
const RTAX_FEATURE_MASK = real.RTAX_FEATURE_MASK
const RTAX_FEATURE_SACK = real.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = real.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = real.RTAX_HOPLIMIT
const RTAX_INITCWND = real.RTAX_INITCWND
const RTAX_INITRWND = real.RTAX_INITRWND
const RTAX_LOCK = real.RTAX_LOCK
const RTAX_MAX = real.RTAX_MAX
const RTAX_MTU = real.RTAX_MTU
const RTAX_QUICKACK = real.RTAX_QUICKACK
const RTAX_REORDERING = real.RTAX_REORDERING
const RTAX_RTO_MIN = real.RTAX_RTO_MIN
const RTAX_RTT = real.RTAX_RTT
const RTAX_RTTVAR = real.RTAX_RTTVAR
const RTAX_SSTHRESH = real.RTAX_SSTHRESH
const RTAX_UNSPEC = real.RTAX_UNSPEC
const RTAX_WINDOW = real.RTAX_WINDOW
const RTA_ALIGNTO = real.RTA_ALIGNTO
const RTA_CACHEINFO = real.RTA_CACHEINFO
const RTA_DPORT = real.RTA_DPORT
const RTA_DST = real.RTA_DST
const RTA_ENCAP = real.RTA_ENCAP
const RTA_ENCAP_TYPE = real.RTA_ENCAP_TYPE
const RTA_EXPIRES = real.RTA_EXPIRES
const RTA_FLOW = real.RTA_FLOW
const RTA_GATEWAY = real.RTA_GATEWAY
const RTA_IIF = real.RTA_IIF
const RTA_IP_PROTO = real.RTA_IP_PROTO
const RTA_MARK = real.RTA_MARK
const RTA_MAX = real.RTA_MAX
const RTA_METRICS = real.RTA_METRICS
const RTA_MFC_STATS = real.RTA_MFC_STATS
const RTA_MULTIPATH = real.RTA_MULTIPATH
const RTA_NEWDST = real.RTA_NEWDST
const RTA_OIF = real.RTA_OIF
const RTA_PAD = real.RTA_PAD
const RTA_PREF = real.RTA_PREF
const RTA_PREFSRC = real.RTA_PREFSRC
const RTA_PRIORITY = real.RTA_PRIORITY
const RTA_SPORT = real.RTA_SPORT
const RTA_SRC = real.RTA_SRC
const RTA_TABLE = real.RTA_TABLE
const RTA_TTL_PROPAGATE = real.RTA_TTL_PROPAGATE
const RTA_UID = real.RTA_UID
const RTA_UNSPEC = real.RTA_UNSPEC
const RTA_VIA = real.RTA_VIA
const RTCF_DIRECTSRC = real.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = real.RTCF_DOREDIRECT
const RTCF_LOG = real.RTCF_LOG
const RTCF_MASQ = real.RTCF_MASQ
const RTCF_NAT = real.RTCF_NAT
const RTCF_VALVE = real.RTCF_VALVE

type RTCPLLInfo = real.RTCPLLInfo
type RTCTime = real.RTCTime
type RTCWkAlrm = real.RTCWkAlrm

const RTC_AF = real.RTC_AF
const RTC_AIE_OFF = real.RTC_AIE_OFF
const RTC_AIE_ON = real.RTC_AIE_ON
const RTC_ALM_READ = real.RTC_ALM_READ
const RTC_ALM_SET = real.RTC_ALM_SET
const RTC_EPOCH_READ = real.RTC_EPOCH_READ
const RTC_EPOCH_SET = real.RTC_EPOCH_SET
const RTC_IRQF = real.RTC_IRQF
const RTC_IRQP_READ = real.RTC_IRQP_READ
const RTC_IRQP_SET = real.RTC_IRQP_SET
const RTC_MAX_FREQ = real.RTC_MAX_FREQ
const RTC_PF = real.RTC_PF
const RTC_PIE_OFF = real.RTC_PIE_OFF
const RTC_PIE_ON = real.RTC_PIE_ON
const RTC_PLL_GET = real.RTC_PLL_GET
const RTC_PLL_SET = real.RTC_PLL_SET
const RTC_RD_TIME = real.RTC_RD_TIME
const RTC_SET_TIME = real.RTC_SET_TIME
const RTC_UF = real.RTC_UF
const RTC_UIE_OFF = real.RTC_UIE_OFF
const RTC_UIE_ON = real.RTC_UIE_ON
const RTC_VL_CLR = real.RTC_VL_CLR
const RTC_VL_READ = real.RTC_VL_READ
const RTC_WIE_OFF = real.RTC_WIE_OFF
const RTC_WIE_ON = real.RTC_WIE_ON
const RTC_WKALM_RD = real.RTC_WKALM_RD
const RTC_WKALM_SET = real.RTC_WKALM_SET
const RTF_ADDRCLASSMASK = real.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = real.RTF_ADDRCONF
const RTF_ALLONLINK = real.RTF_ALLONLINK
const RTF_BROADCAST = real.RTF_BROADCAST
const RTF_CACHE = real.RTF_CACHE
const RTF_DEFAULT = real.RTF_DEFAULT
const RTF_DYNAMIC = real.RTF_DYNAMIC
const RTF_FLOW = real.RTF_FLOW
const RTF_GATEWAY = real.RTF_GATEWAY
const RTF_HOST = real.RTF_HOST
const RTF_INTERFACE = real.RTF_INTERFACE
const RTF_IRTT = real.RTF_IRTT
const RTF_LINKRT = real.RTF_LINKRT
const RTF_LOCAL = real.RTF_LOCAL
const RTF_MODIFIED = real.RTF_MODIFIED
const RTF_MSS = real.RTF_MSS
const RTF_MTU = real.RTF_MTU
const RTF_MULTICAST = real.RTF_MULTICAST
const RTF_NAT = real.RTF_NAT
const RTF_NOFORWARD = real.RTF_NOFORWARD
const RTF_NONEXTHOP = real.RTF_NONEXTHOP
const RTF_NOPMTUDISC = real.RTF_NOPMTUDISC
const RTF_POLICY = real.RTF_POLICY
const RTF_REINSTATE = real.RTF_REINSTATE
const RTF_REJECT = real.RTF_REJECT
const RTF_STATIC = real.RTF_STATIC
const RTF_THROW = real.RTF_THROW
const RTF_UP = real.RTF_UP
const RTF_WINDOW = real.RTF_WINDOW
const RTF_XRESOLVE = real.RTF_XRESOLVE
const RTM_BASE = real.RTM_BASE
const RTM_DELACTION = real.RTM_DELACTION
const RTM_DELADDR = real.RTM_DELADDR
const RTM_DELADDRLABEL = real.RTM_DELADDRLABEL
const RTM_DELCHAIN = real.RTM_DELCHAIN
const RTM_DELLINK = real.RTM_DELLINK
const RTM_DELMDB = real.RTM_DELMDB
const RTM_DELNEIGH = real.RTM_DELNEIGH
const RTM_DELNETCONF = real.RTM_DELNETCONF
const RTM_DELNSID = real.RTM_DELNSID
const RTM_DELQDISC = real.RTM_DELQDISC
const RTM_DELROUTE = real.RTM_DELROUTE
const RTM_DELRULE = real.RTM_DELRULE
const RTM_DELTCLASS = real.RTM_DELTCLASS
const RTM_DELTFILTER = real.RTM_DELTFILTER
const RTM_F_CLONED = real.RTM_F_CLONED
const RTM_F_EQUALIZE = real.RTM_F_EQUALIZE
const RTM_F_FIB_MATCH = real.RTM_F_FIB_MATCH
const RTM_F_LOOKUP_TABLE = real.RTM_F_LOOKUP_TABLE
const RTM_F_NOTIFY = real.RTM_F_NOTIFY
const RTM_F_PREFIX = real.RTM_F_PREFIX
const RTM_GETACTION = real.RTM_GETACTION
const RTM_GETADDR = real.RTM_GETADDR
const RTM_GETADDRLABEL = real.RTM_GETADDRLABEL
const RTM_GETANYCAST = real.RTM_GETANYCAST
const RTM_GETCHAIN = real.RTM_GETCHAIN
const RTM_GETDCB = real.RTM_GETDCB
const RTM_GETLINK = real.RTM_GETLINK
const RTM_GETMDB = real.RTM_GETMDB
const RTM_GETMULTICAST = real.RTM_GETMULTICAST
const RTM_GETNEIGH = real.RTM_GETNEIGH
const RTM_GETNEIGHTBL = real.RTM_GETNEIGHTBL
const RTM_GETNETCONF = real.RTM_GETNETCONF
const RTM_GETNSID = real.RTM_GETNSID
const RTM_GETQDISC = real.RTM_GETQDISC
const RTM_GETROUTE = real.RTM_GETROUTE
const RTM_GETRULE = real.RTM_GETRULE
const RTM_GETSTATS = real.RTM_GETSTATS
const RTM_GETTCLASS = real.RTM_GETTCLASS
const RTM_GETTFILTER = real.RTM_GETTFILTER
const RTM_MAX = real.RTM_MAX
const RTM_NEWACTION = real.RTM_NEWACTION
const RTM_NEWADDR = real.RTM_NEWADDR
const RTM_NEWADDRLABEL = real.RTM_NEWADDRLABEL
const RTM_NEWCACHEREPORT = real.RTM_NEWCACHEREPORT
const RTM_NEWCHAIN = real.RTM_NEWCHAIN
const RTM_NEWLINK = real.RTM_NEWLINK
const RTM_NEWMDB = real.RTM_NEWMDB
const RTM_NEWNDUSEROPT = real.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = real.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = real.RTM_NEWNEIGHTBL
const RTM_NEWNETCONF = real.RTM_NEWNETCONF
const RTM_NEWNSID = real.RTM_NEWNSID
const RTM_NEWPREFIX = real.RTM_NEWPREFIX
const RTM_NEWQDISC = real.RTM_NEWQDISC
const RTM_NEWROUTE = real.RTM_NEWROUTE
const RTM_NEWRULE = real.RTM_NEWRULE
const RTM_NEWSTATS = real.RTM_NEWSTATS
const RTM_NEWTCLASS = real.RTM_NEWTCLASS
const RTM_NEWTFILTER = real.RTM_NEWTFILTER
const RTM_NR_FAMILIES = real.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = real.RTM_NR_MSGTYPES
const RTM_SETDCB = real.RTM_SETDCB
const RTM_SETLINK = real.RTM_SETLINK
const RTM_SETNEIGHTBL = real.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = real.RTNH_ALIGNTO
const RTNH_COMPARE_MASK = real.RTNH_COMPARE_MASK
const RTNH_F_DEAD = real.RTNH_F_DEAD
const RTNH_F_LINKDOWN = real.RTNH_F_LINKDOWN
const RTNH_F_OFFLOAD = real.RTNH_F_OFFLOAD
const RTNH_F_ONLINK = real.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = real.RTNH_F_PERVASIVE
const RTNH_F_UNRESOLVED = real.RTNH_F_UNRESOLVED
const RTNLGRP_IPV4_IFADDR = real.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = real.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = real.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = real.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = real.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = real.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = real.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = real.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = real.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = real.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = real.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = real.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = real.RTNLGRP_NEIGH
const RTNLGRP_NONE = real.RTNLGRP_NONE
const RTNLGRP_NOTIFY = real.RTNLGRP_NOTIFY
const RTNLGRP_TC = real.RTNLGRP_TC
const RTN_ANYCAST = real.RTN_ANYCAST
const RTN_BLACKHOLE = real.RTN_BLACKHOLE
const RTN_BROADCAST = real.RTN_BROADCAST
const RTN_LOCAL = real.RTN_LOCAL
const RTN_MAX = real.RTN_MAX
const RTN_MULTICAST = real.RTN_MULTICAST
const RTN_NAT = real.RTN_NAT
const RTN_PROHIBIT = real.RTN_PROHIBIT
const RTN_THROW = real.RTN_THROW
const RTN_UNICAST = real.RTN_UNICAST
const RTN_UNREACHABLE = real.RTN_UNREACHABLE
const RTN_UNSPEC = real.RTN_UNSPEC
const RTN_XRESOLVE = real.RTN_XRESOLVE
const RTPROT_BABEL = real.RTPROT_BABEL
const RTPROT_BGP = real.RTPROT_BGP
const RTPROT_BIRD = real.RTPROT_BIRD
const RTPROT_BOOT = real.RTPROT_BOOT
const RTPROT_DHCP = real.RTPROT_DHCP
const RTPROT_DNROUTED = real.RTPROT_DNROUTED
const RTPROT_EIGRP = real.RTPROT_EIGRP
const RTPROT_GATED = real.RTPROT_GATED
const RTPROT_ISIS = real.RTPROT_ISIS
const RTPROT_KERNEL = real.RTPROT_KERNEL
const RTPROT_MROUTED = real.RTPROT_MROUTED
const RTPROT_MRT = real.RTPROT_MRT
const RTPROT_NTK = real.RTPROT_NTK
const RTPROT_OSPF = real.RTPROT_OSPF
const RTPROT_RA = real.RTPROT_RA
const RTPROT_REDIRECT = real.RTPROT_REDIRECT
const RTPROT_RIP = real.RTPROT_RIP
const RTPROT_STATIC = real.RTPROT_STATIC
const RTPROT_UNSPEC = real.RTPROT_UNSPEC
const RTPROT_XORP = real.RTPROT_XORP
const RTPROT_ZEBRA = real.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = real.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = real.RT_CLASS_LOCAL
const RT_CLASS_MAIN = real.RT_CLASS_MAIN
const RT_CLASS_MAX = real.RT_CLASS_MAX
const RT_CLASS_UNSPEC = real.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = real.RT_SCOPE_HOST
const RT_SCOPE_LINK = real.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = real.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = real.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = real.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = real.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = real.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = real.RT_TABLE_LOCAL
const RT_TABLE_MAIN = real.RT_TABLE_MAIN
const RT_TABLE_MAX = real.RT_TABLE_MAX
const RT_TABLE_UNSPEC = real.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = real.RUSAGE_CHILDREN
const RUSAGE_SELF = real.RUSAGE_SELF
const RUSAGE_THREAD = real.RUSAGE_THREAD
const R_OK = real.R_OK

type RawSockaddr = real.RawSockaddr
type RawSockaddrALG = real.RawSockaddrALG
type RawSockaddrAny = real.RawSockaddrAny
type RawSockaddrCAN = real.RawSockaddrCAN
type RawSockaddrHCI = real.RawSockaddrHCI
type RawSockaddrInet4 = real.RawSockaddrInet4
type RawSockaddrInet6 = real.RawSockaddrInet6
type RawSockaddrL2 = real.RawSockaddrL2
type RawSockaddrLinklayer = real.RawSockaddrLinklayer
type RawSockaddrNetlink = real.RawSockaddrNetlink
type RawSockaddrPPPoX = real.RawSockaddrPPPoX
type RawSockaddrRFCOMM = real.RawSockaddrRFCOMM
type RawSockaddrUnix = real.RawSockaddrUnix
type RawSockaddrVM = real.RawSockaddrVM
type RawSockaddrXDP = real.RawSockaddrXDP

var RawSyscall = real.RawSyscall
var RawSyscall6 = real.RawSyscall6
var RawSyscallNoError = real.RawSyscallNoError
var Read = real.Read
var ReadDirent = real.ReadDirent
var Readlink = real.Readlink
var Readlinkat = real.Readlinkat
var Reboot = real.Reboot
var Recvfrom = real.Recvfrom
var Recvmsg = real.Recvmsg
var Removexattr = real.Removexattr
var Renameat = real.Renameat
var Renameat2 = real.Renameat2
var RequestKey = real.RequestKey

type Rlimit = real.Rlimit

var Rmdir = real.Rmdir

type RtAttr = real.RtAttr
type RtGenmsg = real.RtGenmsg
type RtMsg = real.RtMsg
type RtNexthop = real.RtNexthop
type Rusage = real.Rusage

const SCM_CREDENTIALS = real.SCM_CREDENTIALS
const SCM_RIGHTS = real.SCM_RIGHTS
const SCM_TIMESTAMP = real.SCM_TIMESTAMP
const SCM_TIMESTAMPING = real.SCM_TIMESTAMPING
const SCM_TIMESTAMPING_OPT_STATS = real.SCM_TIMESTAMPING_OPT_STATS
const SCM_TIMESTAMPING_PKTINFO = real.SCM_TIMESTAMPING_PKTINFO
const SCM_TIMESTAMPNS = real.SCM_TIMESTAMPNS
const SCM_TSTAMP_ACK = real.SCM_TSTAMP_ACK
const SCM_TSTAMP_SCHED = real.SCM_TSTAMP_SCHED
const SCM_TSTAMP_SND = real.SCM_TSTAMP_SND
const SCM_TXTIME = real.SCM_TXTIME
const SCM_WIFI_STATUS = real.SCM_WIFI_STATUS
const SC_LOG_FLUSH = real.SC_LOG_FLUSH
const SECCOMP_MODE_DISABLED = real.SECCOMP_MODE_DISABLED
const SECCOMP_MODE_FILTER = real.SECCOMP_MODE_FILTER
const SECCOMP_MODE_STRICT = real.SECCOMP_MODE_STRICT
const SECURITYFS_MAGIC = real.SECURITYFS_MAGIC
const SELINUX_MAGIC = real.SELINUX_MAGIC
const SFD_CLOEXEC = real.SFD_CLOEXEC
const SFD_NONBLOCK = real.SFD_NONBLOCK
const SHUT_RD = real.SHUT_RD
const SHUT_RDWR = real.SHUT_RDWR
const SHUT_WR = real.SHUT_WR
const SIGABRT = real.SIGABRT
const SIGALRM = real.SIGALRM
const SIGBUS = real.SIGBUS
const SIGCHLD = real.SIGCHLD
const SIGCLD = real.SIGCLD
const SIGCONT = real.SIGCONT
const SIGFPE = real.SIGFPE
const SIGHUP = real.SIGHUP
const SIGILL = real.SIGILL
const SIGINT = real.SIGINT
const SIGIO = real.SIGIO
const SIGIOT = real.SIGIOT
const SIGKILL = real.SIGKILL
const SIGPIPE = real.SIGPIPE
const SIGPOLL = real.SIGPOLL
const SIGPROF = real.SIGPROF
const SIGPWR = real.SIGPWR
const SIGQUIT = real.SIGQUIT
const SIGSEGV = real.SIGSEGV
const SIGSTKFLT = real.SIGSTKFLT
const SIGSTOP = real.SIGSTOP
const SIGSYS = real.SIGSYS
const SIGTERM = real.SIGTERM
const SIGTRAP = real.SIGTRAP
const SIGTSTP = real.SIGTSTP
const SIGTTIN = real.SIGTTIN
const SIGTTOU = real.SIGTTOU
const SIGURG = real.SIGURG
const SIGUSR1 = real.SIGUSR1
const SIGUSR2 = real.SIGUSR2
const SIGVTALRM = real.SIGVTALRM
const SIGWINCH = real.SIGWINCH
const SIGXCPU = real.SIGXCPU
const SIGXFSZ = real.SIGXFSZ
const SIOCADDDLCI = real.SIOCADDDLCI
const SIOCADDMULTI = real.SIOCADDMULTI
const SIOCADDRT = real.SIOCADDRT
const SIOCATMARK = real.SIOCATMARK
const SIOCBONDCHANGEACTIVE = real.SIOCBONDCHANGEACTIVE
const SIOCBONDENSLAVE = real.SIOCBONDENSLAVE
const SIOCBONDINFOQUERY = real.SIOCBONDINFOQUERY
const SIOCBONDRELEASE = real.SIOCBONDRELEASE
const SIOCBONDSETHWADDR = real.SIOCBONDSETHWADDR
const SIOCBONDSLAVEINFOQUERY = real.SIOCBONDSLAVEINFOQUERY
const SIOCBRADDBR = real.SIOCBRADDBR
const SIOCBRADDIF = real.SIOCBRADDIF
const SIOCBRDELBR = real.SIOCBRDELBR
const SIOCBRDELIF = real.SIOCBRDELIF
const SIOCDARP = real.SIOCDARP
const SIOCDELDLCI = real.SIOCDELDLCI
const SIOCDELMULTI = real.SIOCDELMULTI
const SIOCDELRT = real.SIOCDELRT
const SIOCDEVPRIVATE = real.SIOCDEVPRIVATE
const SIOCDIFADDR = real.SIOCDIFADDR
const SIOCDRARP = real.SIOCDRARP
const SIOCETHTOOL = real.SIOCETHTOOL
const SIOCGARP = real.SIOCGARP
const SIOCGHWTSTAMP = real.SIOCGHWTSTAMP
const SIOCGIFADDR = real.SIOCGIFADDR
const SIOCGIFBR = real.SIOCGIFBR
const SIOCGIFBRDADDR = real.SIOCGIFBRDADDR
const SIOCGIFCONF = real.SIOCGIFCONF
const SIOCGIFCOUNT = real.SIOCGIFCOUNT
const SIOCGIFDSTADDR = real.SIOCGIFDSTADDR
const SIOCGIFENCAP = real.SIOCGIFENCAP
const SIOCGIFFLAGS = real.SIOCGIFFLAGS
const SIOCGIFHWADDR = real.SIOCGIFHWADDR
const SIOCGIFINDEX = real.SIOCGIFINDEX
const SIOCGIFMAP = real.SIOCGIFMAP
const SIOCGIFMEM = real.SIOCGIFMEM
const SIOCGIFMETRIC = real.SIOCGIFMETRIC
const SIOCGIFMTU = real.SIOCGIFMTU
const SIOCGIFNAME = real.SIOCGIFNAME
const SIOCGIFNETMASK = real.SIOCGIFNETMASK
const SIOCGIFPFLAGS = real.SIOCGIFPFLAGS
const SIOCGIFSLAVE = real.SIOCGIFSLAVE
const SIOCGIFTXQLEN = real.SIOCGIFTXQLEN
const SIOCGIFVLAN = real.SIOCGIFVLAN
const SIOCGMIIPHY = real.SIOCGMIIPHY
const SIOCGMIIREG = real.SIOCGMIIREG
const SIOCGPGRP = real.SIOCGPGRP
const SIOCGPPPCSTATS = real.SIOCGPPPCSTATS
const SIOCGPPPSTATS = real.SIOCGPPPSTATS
const SIOCGPPPVER = real.SIOCGPPPVER
const SIOCGRARP = real.SIOCGRARP
const SIOCGSKNS = real.SIOCGSKNS
const SIOCGSTAMP = real.SIOCGSTAMP
const SIOCGSTAMPNS = real.SIOCGSTAMPNS
const SIOCINQ = real.SIOCINQ
const SIOCOUTQ = real.SIOCOUTQ
const SIOCOUTQNSD = real.SIOCOUTQNSD
const SIOCPROTOPRIVATE = real.SIOCPROTOPRIVATE
const SIOCRTMSG = real.SIOCRTMSG
const SIOCSARP = real.SIOCSARP
const SIOCSHWTSTAMP = real.SIOCSHWTSTAMP
const SIOCSIFADDR = real.SIOCSIFADDR
const SIOCSIFBR = real.SIOCSIFBR
const SIOCSIFBRDADDR = real.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = real.SIOCSIFDSTADDR
const SIOCSIFENCAP = real.SIOCSIFENCAP
const SIOCSIFFLAGS = real.SIOCSIFFLAGS
const SIOCSIFHWADDR = real.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = real.SIOCSIFHWBROADCAST
const SIOCSIFLINK = real.SIOCSIFLINK
const SIOCSIFMAP = real.SIOCSIFMAP
const SIOCSIFMEM = real.SIOCSIFMEM
const SIOCSIFMETRIC = real.SIOCSIFMETRIC
const SIOCSIFMTU = real.SIOCSIFMTU
const SIOCSIFNAME = real.SIOCSIFNAME
const SIOCSIFNETMASK = real.SIOCSIFNETMASK
const SIOCSIFPFLAGS = real.SIOCSIFPFLAGS
const SIOCSIFSLAVE = real.SIOCSIFSLAVE
const SIOCSIFTXQLEN = real.SIOCSIFTXQLEN
const SIOCSIFVLAN = real.SIOCSIFVLAN
const SIOCSMIIREG = real.SIOCSMIIREG
const SIOCSPGRP = real.SIOCSPGRP
const SIOCSRARP = real.SIOCSRARP
const SIOCWANDEV = real.SIOCWANDEV
const SMACK_MAGIC = real.SMACK_MAGIC
const SMART_AUTOSAVE = real.SMART_AUTOSAVE
const SMART_AUTO_OFFLINE = real.SMART_AUTO_OFFLINE
const SMART_DISABLE = real.SMART_DISABLE
const SMART_ENABLE = real.SMART_ENABLE
const SMART_HCYL_PASS = real.SMART_HCYL_PASS
const SMART_IMMEDIATE_OFFLINE = real.SMART_IMMEDIATE_OFFLINE
const SMART_LCYL_PASS = real.SMART_LCYL_PASS
const SMART_READ_LOG_SECTOR = real.SMART_READ_LOG_SECTOR
const SMART_READ_THRESHOLDS = real.SMART_READ_THRESHOLDS
const SMART_READ_VALUES = real.SMART_READ_VALUES
const SMART_SAVE = real.SMART_SAVE
const SMART_STATUS = real.SMART_STATUS
const SMART_WRITE_LOG_SECTOR = real.SMART_WRITE_LOG_SECTOR
const SMART_WRITE_THRESHOLDS = real.SMART_WRITE_THRESHOLDS
const SMB_SUPER_MAGIC = real.SMB_SUPER_MAGIC
const SOCKFS_MAGIC = real.SOCKFS_MAGIC
const SOCK_CLOEXEC = real.SOCK_CLOEXEC
const SOCK_DCCP = real.SOCK_DCCP
const SOCK_DGRAM = real.SOCK_DGRAM
const SOCK_IOC_TYPE = real.SOCK_IOC_TYPE
const SOCK_NONBLOCK = real.SOCK_NONBLOCK
const SOCK_PACKET = real.SOCK_PACKET
const SOCK_RAW = real.SOCK_RAW
const SOCK_RDM = real.SOCK_RDM
const SOCK_SEQPACKET = real.SOCK_SEQPACKET
const SOCK_STREAM = real.SOCK_STREAM
const SOF_TIMESTAMPING_LAST = real.SOF_TIMESTAMPING_LAST
const SOF_TIMESTAMPING_MASK = real.SOF_TIMESTAMPING_MASK
const SOF_TIMESTAMPING_OPT_CMSG = real.SOF_TIMESTAMPING_OPT_CMSG
const SOF_TIMESTAMPING_OPT_ID = real.SOF_TIMESTAMPING_OPT_ID
const SOF_TIMESTAMPING_OPT_PKTINFO = real.SOF_TIMESTAMPING_OPT_PKTINFO
const SOF_TIMESTAMPING_OPT_STATS = real.SOF_TIMESTAMPING_OPT_STATS
const SOF_TIMESTAMPING_OPT_TSONLY = real.SOF_TIMESTAMPING_OPT_TSONLY
const SOF_TIMESTAMPING_OPT_TX_SWHW = real.SOF_TIMESTAMPING_OPT_TX_SWHW
const SOF_TIMESTAMPING_RAW_HARDWARE = real.SOF_TIMESTAMPING_RAW_HARDWARE
const SOF_TIMESTAMPING_RX_HARDWARE = real.SOF_TIMESTAMPING_RX_HARDWARE
const SOF_TIMESTAMPING_RX_SOFTWARE = real.SOF_TIMESTAMPING_RX_SOFTWARE
const SOF_TIMESTAMPING_SOFTWARE = real.SOF_TIMESTAMPING_SOFTWARE
const SOF_TIMESTAMPING_SYS_HARDWARE = real.SOF_TIMESTAMPING_SYS_HARDWARE
const SOF_TIMESTAMPING_TX_ACK = real.SOF_TIMESTAMPING_TX_ACK
const SOF_TIMESTAMPING_TX_HARDWARE = real.SOF_TIMESTAMPING_TX_HARDWARE
const SOF_TIMESTAMPING_TX_SCHED = real.SOF_TIMESTAMPING_TX_SCHED
const SOF_TIMESTAMPING_TX_SOFTWARE = real.SOF_TIMESTAMPING_TX_SOFTWARE
const SOL_AAL = real.SOL_AAL
const SOL_ALG = real.SOL_ALG
const SOL_ATM = real.SOL_ATM
const SOL_BLUETOOTH = real.SOL_BLUETOOTH
const SOL_CAIF = real.SOL_CAIF
const SOL_CAN_BASE = real.SOL_CAN_BASE
const SOL_DCCP = real.SOL_DCCP
const SOL_DECNET = real.SOL_DECNET
const SOL_HCI = real.SOL_HCI
const SOL_ICMPV6 = real.SOL_ICMPV6
const SOL_IP = real.SOL_IP
const SOL_IPV6 = real.SOL_IPV6
const SOL_IRDA = real.SOL_IRDA
const SOL_IUCV = real.SOL_IUCV
const SOL_KCM = real.SOL_KCM
const SOL_L2CAP = real.SOL_L2CAP
const SOL_LLC = real.SOL_LLC
const SOL_NETBEUI = real.SOL_NETBEUI
const SOL_NETLINK = real.SOL_NETLINK
const SOL_NFC = real.SOL_NFC
const SOL_PACKET = real.SOL_PACKET
const SOL_PNPIPE = real.SOL_PNPIPE
const SOL_PPPOL2TP = real.SOL_PPPOL2TP
const SOL_RAW = real.SOL_RAW
const SOL_RDS = real.SOL_RDS
const SOL_RFCOMM = real.SOL_RFCOMM
const SOL_RXRPC = real.SOL_RXRPC
const SOL_SCO = real.SOL_SCO
const SOL_SOCKET = real.SOL_SOCKET
const SOL_TCP = real.SOL_TCP
const SOL_TIPC = real.SOL_TIPC
const SOL_TLS = real.SOL_TLS
const SOL_X25 = real.SOL_X25
const SOL_XDP = real.SOL_XDP
const SOMAXCONN = real.SOMAXCONN
const SO_ACCEPTCONN = real.SO_ACCEPTCONN
const SO_ATTACH_BPF = real.SO_ATTACH_BPF
const SO_ATTACH_FILTER = real.SO_ATTACH_FILTER
const SO_ATTACH_REUSEPORT_CBPF = real.SO_ATTACH_REUSEPORT_CBPF
const SO_ATTACH_REUSEPORT_EBPF = real.SO_ATTACH_REUSEPORT_EBPF
const SO_BINDTODEVICE = real.SO_BINDTODEVICE
const SO_BPF_EXTENSIONS = real.SO_BPF_EXTENSIONS
const SO_BROADCAST = real.SO_BROADCAST
const SO_BSDCOMPAT = real.SO_BSDCOMPAT
const SO_BUSY_POLL = real.SO_BUSY_POLL
const SO_CNX_ADVICE = real.SO_CNX_ADVICE
const SO_COOKIE = real.SO_COOKIE
const SO_DEBUG = real.SO_DEBUG
const SO_DETACH_BPF = real.SO_DETACH_BPF
const SO_DETACH_FILTER = real.SO_DETACH_FILTER
const SO_DOMAIN = real.SO_DOMAIN
const SO_DONTROUTE = real.SO_DONTROUTE
const SO_EE_CODE_TXTIME_INVALID_PARAM = real.SO_EE_CODE_TXTIME_INVALID_PARAM
const SO_EE_CODE_TXTIME_MISSED = real.SO_EE_CODE_TXTIME_MISSED
const SO_EE_CODE_ZEROCOPY_COPIED = real.SO_EE_CODE_ZEROCOPY_COPIED
const SO_EE_ORIGIN_ICMP = real.SO_EE_ORIGIN_ICMP
const SO_EE_ORIGIN_ICMP6 = real.SO_EE_ORIGIN_ICMP6
const SO_EE_ORIGIN_LOCAL = real.SO_EE_ORIGIN_LOCAL
const SO_EE_ORIGIN_NONE = real.SO_EE_ORIGIN_NONE
const SO_EE_ORIGIN_TIMESTAMPING = real.SO_EE_ORIGIN_TIMESTAMPING
const SO_EE_ORIGIN_TXSTATUS = real.SO_EE_ORIGIN_TXSTATUS
const SO_EE_ORIGIN_TXTIME = real.SO_EE_ORIGIN_TXTIME
const SO_EE_ORIGIN_ZEROCOPY = real.SO_EE_ORIGIN_ZEROCOPY
const SO_ERROR = real.SO_ERROR
const SO_GET_FILTER = real.SO_GET_FILTER
const SO_INCOMING_CPU = real.SO_INCOMING_CPU
const SO_INCOMING_NAPI_ID = real.SO_INCOMING_NAPI_ID
const SO_KEEPALIVE = real.SO_KEEPALIVE
const SO_LINGER = real.SO_LINGER
const SO_LOCK_FILTER = real.SO_LOCK_FILTER
const SO_MARK = real.SO_MARK
const SO_MAX_PACING_RATE = real.SO_MAX_PACING_RATE
const SO_MEMINFO = real.SO_MEMINFO
const SO_NOFCS = real.SO_NOFCS
const SO_NO_CHECK = real.SO_NO_CHECK
const SO_OOBINLINE = real.SO_OOBINLINE
const SO_PASSCRED = real.SO_PASSCRED
const SO_PASSSEC = real.SO_PASSSEC
const SO_PEEK_OFF = real.SO_PEEK_OFF
const SO_PEERCRED = real.SO_PEERCRED
const SO_PEERGROUPS = real.SO_PEERGROUPS
const SO_PEERNAME = real.SO_PEERNAME
const SO_PEERSEC = real.SO_PEERSEC
const SO_PRIORITY = real.SO_PRIORITY
const SO_PROTOCOL = real.SO_PROTOCOL
const SO_RCVBUF = real.SO_RCVBUF
const SO_RCVBUFFORCE = real.SO_RCVBUFFORCE
const SO_RCVLOWAT = real.SO_RCVLOWAT
const SO_RCVTIMEO = real.SO_RCVTIMEO
const SO_REUSEADDR = real.SO_REUSEADDR
const SO_REUSEPORT = real.SO_REUSEPORT
const SO_RXQ_OVFL = real.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = real.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = real.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = real.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SELECT_ERR_QUEUE = real.SO_SELECT_ERR_QUEUE
const SO_SNDBUF = real.SO_SNDBUF
const SO_SNDBUFFORCE = real.SO_SNDBUFFORCE
const SO_SNDLOWAT = real.SO_SNDLOWAT
const SO_SNDTIMEO = real.SO_SNDTIMEO
const SO_TIMESTAMP = real.SO_TIMESTAMP
const SO_TIMESTAMPING = real.SO_TIMESTAMPING
const SO_TIMESTAMPNS = real.SO_TIMESTAMPNS
const SO_TXTIME = real.SO_TXTIME
const SO_TYPE = real.SO_TYPE
const SO_VM_SOCKETS_BUFFER_MAX_SIZE = real.SO_VM_SOCKETS_BUFFER_MAX_SIZE
const SO_VM_SOCKETS_BUFFER_MIN_SIZE = real.SO_VM_SOCKETS_BUFFER_MIN_SIZE
const SO_VM_SOCKETS_BUFFER_SIZE = real.SO_VM_SOCKETS_BUFFER_SIZE
const SO_VM_SOCKETS_CONNECT_TIMEOUT = real.SO_VM_SOCKETS_CONNECT_TIMEOUT
const SO_VM_SOCKETS_NONBLOCK_TXRX = real.SO_VM_SOCKETS_NONBLOCK_TXRX
const SO_VM_SOCKETS_PEER_HOST_VM_ID = real.SO_VM_SOCKETS_PEER_HOST_VM_ID
const SO_VM_SOCKETS_TRUSTED = real.SO_VM_SOCKETS_TRUSTED
const SO_WIFI_STATUS = real.SO_WIFI_STATUS
const SO_ZEROCOPY = real.SO_ZEROCOPY
const SPLICE_F_GIFT = real.SPLICE_F_GIFT
const SPLICE_F_MORE = real.SPLICE_F_MORE
const SPLICE_F_MOVE = real.SPLICE_F_MOVE
const SPLICE_F_NONBLOCK = real.SPLICE_F_NONBLOCK
const SQUASHFS_MAGIC = real.SQUASHFS_MAGIC
const STACK_END_MAGIC = real.STACK_END_MAGIC
const STATX_ALL = real.STATX_ALL
const STATX_ATIME = real.STATX_ATIME
const STATX_ATTR_APPEND = real.STATX_ATTR_APPEND
const STATX_ATTR_AUTOMOUNT = real.STATX_ATTR_AUTOMOUNT
const STATX_ATTR_COMPRESSED = real.STATX_ATTR_COMPRESSED
const STATX_ATTR_ENCRYPTED = real.STATX_ATTR_ENCRYPTED
const STATX_ATTR_IMMUTABLE = real.STATX_ATTR_IMMUTABLE
const STATX_ATTR_NODUMP = real.STATX_ATTR_NODUMP
const STATX_BASIC_STATS = real.STATX_BASIC_STATS
const STATX_BLOCKS = real.STATX_BLOCKS
const STATX_BTIME = real.STATX_BTIME
const STATX_CTIME = real.STATX_CTIME
const STATX_GID = real.STATX_GID
const STATX_INO = real.STATX_INO
const STATX_MODE = real.STATX_MODE
const STATX_MTIME = real.STATX_MTIME
const STATX_NLINK = real.STATX_NLINK
const STATX_SIZE = real.STATX_SIZE
const STATX_TYPE = real.STATX_TYPE
const STATX_UID = real.STATX_UID
const STATX__RESERVED = real.STATX__RESERVED
const ST_MANDLOCK = real.ST_MANDLOCK
const ST_NOATIME = real.ST_NOATIME
const ST_NODEV = real.ST_NODEV
const ST_NODIRATIME = real.ST_NODIRATIME
const ST_NOEXEC = real.ST_NOEXEC
const ST_NOSUID = real.ST_NOSUID
const ST_RDONLY = real.ST_RDONLY
const ST_RELATIME = real.ST_RELATIME
const ST_SYNCHRONOUS = real.ST_SYNCHRONOUS
const SYNC_FILE_RANGE_WAIT_AFTER = real.SYNC_FILE_RANGE_WAIT_AFTER
const SYNC_FILE_RANGE_WAIT_BEFORE = real.SYNC_FILE_RANGE_WAIT_BEFORE
const SYNC_FILE_RANGE_WRITE = real.SYNC_FILE_RANGE_WRITE
const SYSFS_MAGIC = real.SYSFS_MAGIC
const SYS_ACCEPT = real.SYS_ACCEPT
const SYS_ACCEPT4 = real.SYS_ACCEPT4
const SYS_ACCESS = real.SYS_ACCESS
const SYS_ACCT = real.SYS_ACCT
const SYS_ADD_KEY = real.SYS_ADD_KEY
const SYS_ADJTIMEX = real.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = real.SYS_AFS_SYSCALL
const SYS_ALARM = real.SYS_ALARM
const SYS_ARCH_PRCTL = real.SYS_ARCH_PRCTL
const SYS_BIND = real.SYS_BIND
const SYS_BPF = real.SYS_BPF
const SYS_BRK = real.SYS_BRK
const SYS_CAPGET = real.SYS_CAPGET
const SYS_CAPSET = real.SYS_CAPSET
const SYS_CHDIR = real.SYS_CHDIR
const SYS_CHMOD = real.SYS_CHMOD
const SYS_CHOWN = real.SYS_CHOWN
const SYS_CHROOT = real.SYS_CHROOT
const SYS_CLOCK_ADJTIME = real.SYS_CLOCK_ADJTIME
const SYS_CLOCK_GETRES = real.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = real.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = real.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = real.SYS_CLOCK_SETTIME
const SYS_CLONE = real.SYS_CLONE
const SYS_CLOSE = real.SYS_CLOSE
const SYS_CONNECT = real.SYS_CONNECT
const SYS_COPY_FILE_RANGE = real.SYS_COPY_FILE_RANGE
const SYS_CREAT = real.SYS_CREAT
const SYS_CREATE_MODULE = real.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = real.SYS_DELETE_MODULE
const SYS_DUP = real.SYS_DUP
const SYS_DUP2 = real.SYS_DUP2
const SYS_DUP3 = real.SYS_DUP3
const SYS_EPOLL_CREATE = real.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = real.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = real.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = real.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = real.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = real.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = real.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = real.SYS_EVENTFD
const SYS_EVENTFD2 = real.SYS_EVENTFD2
const SYS_EXECVE = real.SYS_EXECVE
const SYS_EXECVEAT = real.SYS_EXECVEAT
const SYS_EXIT = real.SYS_EXIT
const SYS_EXIT_GROUP = real.SYS_EXIT_GROUP
const SYS_FACCESSAT = real.SYS_FACCESSAT
const SYS_FADVISE64 = real.SYS_FADVISE64
const SYS_FALLOCATE = real.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = real.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = real.SYS_FANOTIFY_MARK
const SYS_FCHDIR = real.SYS_FCHDIR
const SYS_FCHMOD = real.SYS_FCHMOD
const SYS_FCHMODAT = real.SYS_FCHMODAT
const SYS_FCHOWN = real.SYS_FCHOWN
const SYS_FCHOWNAT = real.SYS_FCHOWNAT
const SYS_FCNTL = real.SYS_FCNTL
const SYS_FDATASYNC = real.SYS_FDATASYNC
const SYS_FGETXATTR = real.SYS_FGETXATTR
const SYS_FINIT_MODULE = real.SYS_FINIT_MODULE
const SYS_FLISTXATTR = real.SYS_FLISTXATTR
const SYS_FLOCK = real.SYS_FLOCK
const SYS_FORK = real.SYS_FORK
const SYS_FREMOVEXATTR = real.SYS_FREMOVEXATTR
const SYS_FSETXATTR = real.SYS_FSETXATTR
const SYS_FSTAT = real.SYS_FSTAT
const SYS_FSTATFS = real.SYS_FSTATFS
const SYS_FSYNC = real.SYS_FSYNC
const SYS_FTRUNCATE = real.SYS_FTRUNCATE
const SYS_FUTEX = real.SYS_FUTEX
const SYS_FUTIMESAT = real.SYS_FUTIMESAT
const SYS_GETCPU = real.SYS_GETCPU
const SYS_GETCWD = real.SYS_GETCWD
const SYS_GETDENTS = real.SYS_GETDENTS
const SYS_GETDENTS64 = real.SYS_GETDENTS64
const SYS_GETEGID = real.SYS_GETEGID
const SYS_GETEUID = real.SYS_GETEUID
const SYS_GETGID = real.SYS_GETGID
const SYS_GETGROUPS = real.SYS_GETGROUPS
const SYS_GETITIMER = real.SYS_GETITIMER
const SYS_GETPEERNAME = real.SYS_GETPEERNAME
const SYS_GETPGID = real.SYS_GETPGID
const SYS_GETPGRP = real.SYS_GETPGRP
const SYS_GETPID = real.SYS_GETPID
const SYS_GETPMSG = real.SYS_GETPMSG
const SYS_GETPPID = real.SYS_GETPPID
const SYS_GETPRIORITY = real.SYS_GETPRIORITY
const SYS_GETRANDOM = real.SYS_GETRANDOM
const SYS_GETRESGID = real.SYS_GETRESGID
const SYS_GETRESUID = real.SYS_GETRESUID
const SYS_GETRLIMIT = real.SYS_GETRLIMIT
const SYS_GETRUSAGE = real.SYS_GETRUSAGE
const SYS_GETSID = real.SYS_GETSID
const SYS_GETSOCKNAME = real.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = real.SYS_GETSOCKOPT
const SYS_GETTID = real.SYS_GETTID
const SYS_GETTIMEOFDAY = real.SYS_GETTIMEOFDAY
const SYS_GETUID = real.SYS_GETUID
const SYS_GETXATTR = real.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = real.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = real.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = real.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = real.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = real.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = real.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = real.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = real.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = real.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = real.SYS_IOCTL
const SYS_IOPERM = real.SYS_IOPERM
const SYS_IOPL = real.SYS_IOPL
const SYS_IOPRIO_GET = real.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = real.SYS_IOPRIO_SET
const SYS_IO_CANCEL = real.SYS_IO_CANCEL
const SYS_IO_DESTROY = real.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = real.SYS_IO_GETEVENTS
const SYS_IO_PGETEVENTS = real.SYS_IO_PGETEVENTS
const SYS_IO_SETUP = real.SYS_IO_SETUP
const SYS_IO_SUBMIT = real.SYS_IO_SUBMIT
const SYS_KCMP = real.SYS_KCMP
const SYS_KEXEC_FILE_LOAD = real.SYS_KEXEC_FILE_LOAD
const SYS_KEXEC_LOAD = real.SYS_KEXEC_LOAD
const SYS_KEYCTL = real.SYS_KEYCTL
const SYS_KILL = real.SYS_KILL
const SYS_LCHOWN = real.SYS_LCHOWN
const SYS_LGETXATTR = real.SYS_LGETXATTR
const SYS_LINK = real.SYS_LINK
const SYS_LINKAT = real.SYS_LINKAT
const SYS_LISTEN = real.SYS_LISTEN
const SYS_LISTXATTR = real.SYS_LISTXATTR
const SYS_LLISTXATTR = real.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = real.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = real.SYS_LREMOVEXATTR
const SYS_LSEEK = real.SYS_LSEEK
const SYS_LSETXATTR = real.SYS_LSETXATTR
const SYS_LSTAT = real.SYS_LSTAT
const SYS_MADVISE = real.SYS_MADVISE
const SYS_MBIND = real.SYS_MBIND
const SYS_MEMBARRIER = real.SYS_MEMBARRIER
const SYS_MEMFD_CREATE = real.SYS_MEMFD_CREATE
const SYS_MIGRATE_PAGES = real.SYS_MIGRATE_PAGES
const SYS_MINCORE = real.SYS_MINCORE
const SYS_MKDIR = real.SYS_MKDIR
const SYS_MKDIRAT = real.SYS_MKDIRAT
const SYS_MKNOD = real.SYS_MKNOD
const SYS_MKNODAT = real.SYS_MKNODAT
const SYS_MLOCK = real.SYS_MLOCK
const SYS_MLOCK2 = real.SYS_MLOCK2
const SYS_MLOCKALL = real.SYS_MLOCKALL
const SYS_MMAP = real.SYS_MMAP
const SYS_MODIFY_LDT = real.SYS_MODIFY_LDT
const SYS_MOUNT = real.SYS_MOUNT
const SYS_MOVE_PAGES = real.SYS_MOVE_PAGES
const SYS_MPROTECT = real.SYS_MPROTECT
const SYS_MQ_GETSETATTR = real.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = real.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = real.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = real.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = real.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = real.SYS_MQ_UNLINK
const SYS_MREMAP = real.SYS_MREMAP
const SYS_MSGCTL = real.SYS_MSGCTL
const SYS_MSGGET = real.SYS_MSGGET
const SYS_MSGRCV = real.SYS_MSGRCV
const SYS_MSGSND = real.SYS_MSGSND
const SYS_MSYNC = real.SYS_MSYNC
const SYS_MUNLOCK = real.SYS_MUNLOCK
const SYS_MUNLOCKALL = real.SYS_MUNLOCKALL
const SYS_MUNMAP = real.SYS_MUNMAP
const SYS_NAME_TO_HANDLE_AT = real.SYS_NAME_TO_HANDLE_AT
const SYS_NANOSLEEP = real.SYS_NANOSLEEP
const SYS_NEWFSTATAT = real.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = real.SYS_NFSSERVCTL
const SYS_OPEN = real.SYS_OPEN
const SYS_OPENAT = real.SYS_OPENAT
const SYS_OPEN_BY_HANDLE_AT = real.SYS_OPEN_BY_HANDLE_AT
const SYS_PAUSE = real.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = real.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = real.SYS_PERSONALITY
const SYS_PIPE = real.SYS_PIPE
const SYS_PIPE2 = real.SYS_PIPE2
const SYS_PIVOT_ROOT = real.SYS_PIVOT_ROOT
const SYS_PKEY_ALLOC = real.SYS_PKEY_ALLOC
const SYS_PKEY_FREE = real.SYS_PKEY_FREE
const SYS_PKEY_MPROTECT = real.SYS_PKEY_MPROTECT
const SYS_POLL = real.SYS_POLL
const SYS_PPOLL = real.SYS_PPOLL
const SYS_PRCTL = real.SYS_PRCTL
const SYS_PREAD64 = real.SYS_PREAD64
const SYS_PREADV = real.SYS_PREADV
const SYS_PREADV2 = real.SYS_PREADV2
const SYS_PRLIMIT64 = real.SYS_PRLIMIT64
const SYS_PROCESS_VM_READV = real.SYS_PROCESS_VM_READV
const SYS_PROCESS_VM_WRITEV = real.SYS_PROCESS_VM_WRITEV
const SYS_PSELECT6 = real.SYS_PSELECT6
const SYS_PTRACE = real.SYS_PTRACE
const SYS_PUTPMSG = real.SYS_PUTPMSG
const SYS_PWRITE64 = real.SYS_PWRITE64
const SYS_PWRITEV = real.SYS_PWRITEV
const SYS_PWRITEV2 = real.SYS_PWRITEV2
const SYS_QUERY_MODULE = real.SYS_QUERY_MODULE
const SYS_QUOTACTL = real.SYS_QUOTACTL
const SYS_READ = real.SYS_READ
const SYS_READAHEAD = real.SYS_READAHEAD
const SYS_READLINK = real.SYS_READLINK
const SYS_READLINKAT = real.SYS_READLINKAT
const SYS_READV = real.SYS_READV
const SYS_REBOOT = real.SYS_REBOOT
const SYS_RECVFROM = real.SYS_RECVFROM
const SYS_RECVMMSG = real.SYS_RECVMMSG
const SYS_RECVMSG = real.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = real.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = real.SYS_REMOVEXATTR
const SYS_RENAME = real.SYS_RENAME
const SYS_RENAMEAT = real.SYS_RENAMEAT
const SYS_RENAMEAT2 = real.SYS_RENAMEAT2
const SYS_REQUEST_KEY = real.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = real.SYS_RESTART_SYSCALL
const SYS_RMDIR = real.SYS_RMDIR
const SYS_RSEQ = real.SYS_RSEQ
const SYS_RT_SIGACTION = real.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = real.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = real.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = real.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = real.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = real.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = real.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = real.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = real.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETATTR = real.SYS_SCHED_GETATTR
const SYS_SCHED_GETPARAM = real.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = real.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = real.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = real.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = real.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = real.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETATTR = real.SYS_SCHED_SETATTR
const SYS_SCHED_SETPARAM = real.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = real.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = real.SYS_SCHED_YIELD
const SYS_SECCOMP = real.SYS_SECCOMP
const SYS_SECURITY = real.SYS_SECURITY
const SYS_SELECT = real.SYS_SELECT
const SYS_SEMCTL = real.SYS_SEMCTL
const SYS_SEMGET = real.SYS_SEMGET
const SYS_SEMOP = real.SYS_SEMOP
const SYS_SEMTIMEDOP = real.SYS_SEMTIMEDOP
const SYS_SENDFILE = real.SYS_SENDFILE
const SYS_SENDMMSG = real.SYS_SENDMMSG
const SYS_SENDMSG = real.SYS_SENDMSG
const SYS_SENDTO = real.SYS_SENDTO
const SYS_SETDOMAINNAME = real.SYS_SETDOMAINNAME
const SYS_SETFSGID = real.SYS_SETFSGID
const SYS_SETFSUID = real.SYS_SETFSUID
const SYS_SETGID = real.SYS_SETGID
const SYS_SETGROUPS = real.SYS_SETGROUPS
const SYS_SETHOSTNAME = real.SYS_SETHOSTNAME
const SYS_SETITIMER = real.SYS_SETITIMER
const SYS_SETNS = real.SYS_SETNS
const SYS_SETPGID = real.SYS_SETPGID
const SYS_SETPRIORITY = real.SYS_SETPRIORITY
const SYS_SETREGID = real.SYS_SETREGID
const SYS_SETRESGID = real.SYS_SETRESGID
const SYS_SETRESUID = real.SYS_SETRESUID
const SYS_SETREUID = real.SYS_SETREUID
const SYS_SETRLIMIT = real.SYS_SETRLIMIT
const SYS_SETSID = real.SYS_SETSID
const SYS_SETSOCKOPT = real.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = real.SYS_SETTIMEOFDAY
const SYS_SETUID = real.SYS_SETUID
const SYS_SETXATTR = real.SYS_SETXATTR
const SYS_SET_MEMPOLICY = real.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = real.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = real.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = real.SYS_SET_TID_ADDRESS
const SYS_SHMAT = real.SYS_SHMAT
const SYS_SHMCTL = real.SYS_SHMCTL
const SYS_SHMDT = real.SYS_SHMDT
const SYS_SHMGET = real.SYS_SHMGET
const SYS_SHUTDOWN = real.SYS_SHUTDOWN
const SYS_SIGALTSTACK = real.SYS_SIGALTSTACK
const SYS_SIGNALFD = real.SYS_SIGNALFD
const SYS_SIGNALFD4 = real.SYS_SIGNALFD4
const SYS_SOCKET = real.SYS_SOCKET
const SYS_SOCKETPAIR = real.SYS_SOCKETPAIR
const SYS_SPLICE = real.SYS_SPLICE
const SYS_STAT = real.SYS_STAT
const SYS_STATFS = real.SYS_STATFS
const SYS_STATX = real.SYS_STATX
const SYS_SWAPOFF = real.SYS_SWAPOFF
const SYS_SWAPON = real.SYS_SWAPON
const SYS_SYMLINK = real.SYS_SYMLINK
const SYS_SYMLINKAT = real.SYS_SYMLINKAT
const SYS_SYNC = real.SYS_SYNC
const SYS_SYNCFS = real.SYS_SYNCFS
const SYS_SYNC_FILE_RANGE = real.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = real.SYS_SYSFS
const SYS_SYSINFO = real.SYS_SYSINFO
const SYS_SYSLOG = real.SYS_SYSLOG
const SYS_TEE = real.SYS_TEE
const SYS_TGKILL = real.SYS_TGKILL
const SYS_TIME = real.SYS_TIME
const SYS_TIMERFD_CREATE = real.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = real.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = real.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = real.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = real.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = real.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = real.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = real.SYS_TIMER_SETTIME
const SYS_TIMES = real.SYS_TIMES
const SYS_TKILL = real.SYS_TKILL
const SYS_TRUNCATE = real.SYS_TRUNCATE
const SYS_TUXCALL = real.SYS_TUXCALL
const SYS_UMASK = real.SYS_UMASK
const SYS_UMOUNT2 = real.SYS_UMOUNT2
const SYS_UNAME = real.SYS_UNAME
const SYS_UNLINK = real.SYS_UNLINK
const SYS_UNLINKAT = real.SYS_UNLINKAT
const SYS_UNSHARE = real.SYS_UNSHARE
const SYS_USELIB = real.SYS_USELIB
const SYS_USERFAULTFD = real.SYS_USERFAULTFD
const SYS_USTAT = real.SYS_USTAT
const SYS_UTIME = real.SYS_UTIME
const SYS_UTIMENSAT = real.SYS_UTIMENSAT
const SYS_UTIMES = real.SYS_UTIMES
const SYS_VFORK = real.SYS_VFORK
const SYS_VHANGUP = real.SYS_VHANGUP
const SYS_VMSPLICE = real.SYS_VMSPLICE
const SYS_VSERVER = real.SYS_VSERVER
const SYS_WAIT4 = real.SYS_WAIT4
const SYS_WAITID = real.SYS_WAITID
const SYS_WRITE = real.SYS_WRITE
const SYS_WRITEV = real.SYS_WRITEV
const SYS__SYSCTL = real.SYS__SYSCTL
const S_BLKSIZE = real.S_BLKSIZE
const S_IEXEC = real.S_IEXEC
const S_IFBLK = real.S_IFBLK
const S_IFCHR = real.S_IFCHR
const S_IFDIR = real.S_IFDIR
const S_IFIFO = real.S_IFIFO
const S_IFLNK = real.S_IFLNK
const S_IFMT = real.S_IFMT
const S_IFREG = real.S_IFREG
const S_IFSOCK = real.S_IFSOCK
const S_IREAD = real.S_IREAD
const S_IRGRP = real.S_IRGRP
const S_IROTH = real.S_IROTH
const S_IRUSR = real.S_IRUSR
const S_IRWXG = real.S_IRWXG
const S_IRWXO = real.S_IRWXO
const S_IRWXU = real.S_IRWXU
const S_ISGID = real.S_ISGID
const S_ISUID = real.S_ISUID
const S_ISVTX = real.S_ISVTX
const S_IWGRP = real.S_IWGRP
const S_IWOTH = real.S_IWOTH
const S_IWRITE = real.S_IWRITE
const S_IWUSR = real.S_IWUSR
const S_IXGRP = real.S_IXGRP
const S_IXOTH = real.S_IXOTH
const S_IXUSR = real.S_IXUSR

var SchedGetaffinity = real.SchedGetaffinity
var SchedSetaffinity = real.SchedSetaffinity

type ScmTimestamping = real.ScmTimestamping

var Seek = real.Seek
var Select = real.Select
var Sendfile = real.Sendfile
var Sendmsg = real.Sendmsg
var SendmsgN = real.SendmsgN
var Sendto = real.Sendto
var SetNonblock = real.SetNonblock
var Setdomainname = real.Setdomainname
var Setenv = real.Setenv
var Setfsgid = real.Setfsgid
var Setfsuid = real.Setfsuid
var Setgid = real.Setgid
var Setgroups = real.Setgroups
var Sethostname = real.Sethostname
var Setns = real.Setns
var Setpgid = real.Setpgid
var Setpriority = real.Setpriority
var Setregid = real.Setregid
var Setresgid = real.Setresgid
var Setresuid = real.Setresuid
var Setreuid = real.Setreuid
var Setrlimit = real.Setrlimit
var Setsid = real.Setsid
var SetsockoptByte = real.SetsockoptByte
var SetsockoptCanRawFilter = real.SetsockoptCanRawFilter
var SetsockoptICMPv6Filter = real.SetsockoptICMPv6Filter
var SetsockoptIPMreq = real.SetsockoptIPMreq
var SetsockoptIPMreqn = real.SetsockoptIPMreqn
var SetsockoptIPv6Mreq = real.SetsockoptIPv6Mreq
var SetsockoptInet4Addr = real.SetsockoptInet4Addr
var SetsockoptInt = real.SetsockoptInt
var SetsockoptLinger = real.SetsockoptLinger
var SetsockoptPacketMreq = real.SetsockoptPacketMreq
var SetsockoptSockFprog = real.SetsockoptSockFprog
var SetsockoptString = real.SetsockoptString
var SetsockoptTimeval = real.SetsockoptTimeval
var SetsockoptTpacketReq = real.SetsockoptTpacketReq
var SetsockoptTpacketReq3 = real.SetsockoptTpacketReq3
var Settimeofday = real.Settimeofday
var Setuid = real.Setuid
var Setxattr = real.Setxattr
var Shutdown = real.Shutdown

type Signal = real.Signal

var SignalName = real.SignalName
var SignalNum = real.SignalNum
var Signalfd = real.Signalfd

type SignalfdSiginfo = real.SignalfdSiginfo
type Sigset_t = real.Sigset_t

const SizeofCanFilter = real.SizeofCanFilter
const SizeofCmsghdr = real.SizeofCmsghdr
const SizeofICMPv6Filter = real.SizeofICMPv6Filter
const SizeofIPMreq = real.SizeofIPMreq
const SizeofIPMreqn = real.SizeofIPMreqn
const SizeofIPv6MTUInfo = real.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = real.SizeofIPv6Mreq
const SizeofIfAddrmsg = real.SizeofIfAddrmsg
const SizeofIfInfomsg = real.SizeofIfInfomsg
const SizeofInet4Pktinfo = real.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = real.SizeofInet6Pktinfo
const SizeofInotifyEvent = real.SizeofInotifyEvent
const SizeofInt = real.SizeofInt
const SizeofIovec = real.SizeofIovec
const SizeofLinger = real.SizeofLinger
const SizeofLong = real.SizeofLong
const SizeofLongLong = real.SizeofLongLong
const SizeofMsghdr = real.SizeofMsghdr
const SizeofNdUseroptmsg = real.SizeofNdUseroptmsg
const SizeofNlAttr = real.SizeofNlAttr
const SizeofNlMsgerr = real.SizeofNlMsgerr
const SizeofNlMsghdr = real.SizeofNlMsghdr
const SizeofPacketMreq = real.SizeofPacketMreq
const SizeofPtr = real.SizeofPtr
const SizeofRtAttr = real.SizeofRtAttr
const SizeofRtGenmsg = real.SizeofRtGenmsg
const SizeofRtMsg = real.SizeofRtMsg
const SizeofRtNexthop = real.SizeofRtNexthop
const SizeofShort = real.SizeofShort
const SizeofSockFilter = real.SizeofSockFilter
const SizeofSockFprog = real.SizeofSockFprog
const SizeofSockaddrALG = real.SizeofSockaddrALG
const SizeofSockaddrAny = real.SizeofSockaddrAny
const SizeofSockaddrCAN = real.SizeofSockaddrCAN
const SizeofSockaddrHCI = real.SizeofSockaddrHCI
const SizeofSockaddrInet4 = real.SizeofSockaddrInet4
const SizeofSockaddrInet6 = real.SizeofSockaddrInet6
const SizeofSockaddrL2 = real.SizeofSockaddrL2
const SizeofSockaddrLinklayer = real.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = real.SizeofSockaddrNetlink
const SizeofSockaddrPPPoX = real.SizeofSockaddrPPPoX
const SizeofSockaddrRFCOMM = real.SizeofSockaddrRFCOMM
const SizeofSockaddrUnix = real.SizeofSockaddrUnix
const SizeofSockaddrVM = real.SizeofSockaddrVM
const SizeofSockaddrXDP = real.SizeofSockaddrXDP
const SizeofTCPInfo = real.SizeofTCPInfo
const SizeofTpacket2Hdr = real.SizeofTpacket2Hdr
const SizeofTpacket3Hdr = real.SizeofTpacket3Hdr
const SizeofTpacketHdr = real.SizeofTpacketHdr
const SizeofTpacketStats = real.SizeofTpacketStats
const SizeofTpacketStatsV3 = real.SizeofTpacketStatsV3
const SizeofUcred = real.SizeofUcred

type SockExtendedErr = real.SockExtendedErr
type SockFilter = real.SockFilter
type SockFprog = real.SockFprog
type Sockaddr = real.Sockaddr
type SockaddrALG = real.SockaddrALG
type SockaddrCAN = real.SockaddrCAN
type SockaddrHCI = real.SockaddrHCI
type SockaddrInet4 = real.SockaddrInet4
type SockaddrInet6 = real.SockaddrInet6
type SockaddrL2 = real.SockaddrL2
type SockaddrLinklayer = real.SockaddrLinklayer
type SockaddrNetlink = real.SockaddrNetlink
type SockaddrPPPoE = real.SockaddrPPPoE
type SockaddrRFCOMM = real.SockaddrRFCOMM
type SockaddrStorage = real.SockaddrStorage
type SockaddrUnix = real.SockaddrUnix
type SockaddrVM = real.SockaddrVM
type SockaddrXDP = real.SockaddrXDP

var Socket = real.Socket

type SocketControlMessage = real.SocketControlMessage

var SocketDisableIPv6 = real.SocketDisableIPv6
var Socketpair = real.Socketpair
var Splice = real.Splice
var Stat = real.Stat

type Stat_t = real.Stat_t

var Statfs = real.Statfs

type Statfs_t = real.Statfs_t

var Statx = real.Statx

type StatxTimestamp = real.StatxTimestamp
type Statx_t = real.Statx_t

var Stderr = real.Stderr
var Stdin = real.Stdin
var Stdout = real.Stdout
var Symlink = real.Symlink
var Symlinkat = real.Symlinkat
var Sync = real.Sync
var SyncFileRange = real.SyncFileRange
var Syncfs = real.Syncfs

type SysProcAttr = real.SysProcAttr

var Syscall = real.Syscall
var Syscall6 = real.Syscall6
var SyscallNoError = real.SyscallNoError
var Sysinfo = real.Sysinfo

type Sysinfo_t = real.Sysinfo_t

const TAB0 = real.TAB0
const TAB1 = real.TAB1
const TAB2 = real.TAB2
const TAB3 = real.TAB3
const TABDLY = real.TABDLY
const TASKSTATS_CMD_ATTR_DEREGISTER_CPUMASK = real.TASKSTATS_CMD_ATTR_DEREGISTER_CPUMASK
const TASKSTATS_CMD_ATTR_MAX = real.TASKSTATS_CMD_ATTR_MAX
const TASKSTATS_CMD_ATTR_PID = real.TASKSTATS_CMD_ATTR_PID
const TASKSTATS_CMD_ATTR_REGISTER_CPUMASK = real.TASKSTATS_CMD_ATTR_REGISTER_CPUMASK
const TASKSTATS_CMD_ATTR_TGID = real.TASKSTATS_CMD_ATTR_TGID
const TASKSTATS_CMD_ATTR_UNSPEC = real.TASKSTATS_CMD_ATTR_UNSPEC
const TASKSTATS_CMD_GET = real.TASKSTATS_CMD_GET
const TASKSTATS_CMD_MAX = real.TASKSTATS_CMD_MAX
const TASKSTATS_CMD_NEW = real.TASKSTATS_CMD_NEW
const TASKSTATS_CMD_UNSPEC = real.TASKSTATS_CMD_UNSPEC
const TASKSTATS_GENL_NAME = real.TASKSTATS_GENL_NAME
const TASKSTATS_GENL_VERSION = real.TASKSTATS_GENL_VERSION
const TASKSTATS_TYPE_AGGR_PID = real.TASKSTATS_TYPE_AGGR_PID
const TASKSTATS_TYPE_AGGR_TGID = real.TASKSTATS_TYPE_AGGR_TGID
const TASKSTATS_TYPE_MAX = real.TASKSTATS_TYPE_MAX
const TASKSTATS_TYPE_NULL = real.TASKSTATS_TYPE_NULL
const TASKSTATS_TYPE_PID = real.TASKSTATS_TYPE_PID
const TASKSTATS_TYPE_STATS = real.TASKSTATS_TYPE_STATS
const TASKSTATS_TYPE_TGID = real.TASKSTATS_TYPE_TGID
const TASKSTATS_TYPE_UNSPEC = real.TASKSTATS_TYPE_UNSPEC
const TASKSTATS_VERSION = real.TASKSTATS_VERSION
const TCFLSH = real.TCFLSH
const TCGETA = real.TCGETA
const TCGETS = real.TCGETS
const TCGETS2 = real.TCGETS2
const TCGETX = real.TCGETX
const TCIFLUSH = real.TCIFLUSH
const TCIOFF = real.TCIOFF
const TCIOFLUSH = real.TCIOFLUSH
const TCION = real.TCION
const TCOFLUSH = real.TCOFLUSH
const TCOOFF = real.TCOOFF
const TCOON = real.TCOON

type TCPInfo = real.TCPInfo
type TCPMD5Sig = real.TCPMD5Sig

const TCP_CC_INFO = real.TCP_CC_INFO
const TCP_CM_INQ = real.TCP_CM_INQ
const TCP_CONGESTION = real.TCP_CONGESTION
const TCP_COOKIE_IN_ALWAYS = real.TCP_COOKIE_IN_ALWAYS
const TCP_COOKIE_MAX = real.TCP_COOKIE_MAX
const TCP_COOKIE_MIN = real.TCP_COOKIE_MIN
const TCP_COOKIE_OUT_NEVER = real.TCP_COOKIE_OUT_NEVER
const TCP_COOKIE_PAIR_SIZE = real.TCP_COOKIE_PAIR_SIZE
const TCP_COOKIE_TRANSACTIONS = real.TCP_COOKIE_TRANSACTIONS
const TCP_CORK = real.TCP_CORK
const TCP_DEFER_ACCEPT = real.TCP_DEFER_ACCEPT
const TCP_FASTOPEN = real.TCP_FASTOPEN
const TCP_FASTOPEN_CONNECT = real.TCP_FASTOPEN_CONNECT
const TCP_FASTOPEN_KEY = real.TCP_FASTOPEN_KEY
const TCP_FASTOPEN_NO_COOKIE = real.TCP_FASTOPEN_NO_COOKIE
const TCP_INFO = real.TCP_INFO
const TCP_INQ = real.TCP_INQ
const TCP_KEEPCNT = real.TCP_KEEPCNT
const TCP_KEEPIDLE = real.TCP_KEEPIDLE
const TCP_KEEPINTVL = real.TCP_KEEPINTVL
const TCP_LINGER2 = real.TCP_LINGER2
const TCP_MAXSEG = real.TCP_MAXSEG
const TCP_MAXWIN = real.TCP_MAXWIN
const TCP_MAX_WINSHIFT = real.TCP_MAX_WINSHIFT
const TCP_MD5SIG = real.TCP_MD5SIG
const TCP_MD5SIG_EXT = real.TCP_MD5SIG_EXT
const TCP_MD5SIG_FLAG_PREFIX = real.TCP_MD5SIG_FLAG_PREFIX
const TCP_MD5SIG_MAXKEYLEN = real.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = real.TCP_MSS
const TCP_MSS_DEFAULT = real.TCP_MSS_DEFAULT
const TCP_MSS_DESIRED = real.TCP_MSS_DESIRED
const TCP_NODELAY = real.TCP_NODELAY
const TCP_NOTSENT_LOWAT = real.TCP_NOTSENT_LOWAT
const TCP_QUEUE_SEQ = real.TCP_QUEUE_SEQ
const TCP_QUICKACK = real.TCP_QUICKACK
const TCP_REPAIR = real.TCP_REPAIR
const TCP_REPAIR_OFF = real.TCP_REPAIR_OFF
const TCP_REPAIR_OFF_NO_WP = real.TCP_REPAIR_OFF_NO_WP
const TCP_REPAIR_ON = real.TCP_REPAIR_ON
const TCP_REPAIR_OPTIONS = real.TCP_REPAIR_OPTIONS
const TCP_REPAIR_QUEUE = real.TCP_REPAIR_QUEUE
const TCP_REPAIR_WINDOW = real.TCP_REPAIR_WINDOW
const TCP_SAVED_SYN = real.TCP_SAVED_SYN
const TCP_SAVE_SYN = real.TCP_SAVE_SYN
const TCP_SYNCNT = real.TCP_SYNCNT
const TCP_S_DATA_IN = real.TCP_S_DATA_IN
const TCP_S_DATA_OUT = real.TCP_S_DATA_OUT
const TCP_THIN_DUPACK = real.TCP_THIN_DUPACK
const TCP_THIN_LINEAR_TIMEOUTS = real.TCP_THIN_LINEAR_TIMEOUTS
const TCP_TIMESTAMP = real.TCP_TIMESTAMP
const TCP_ULP = real.TCP_ULP
const TCP_USER_TIMEOUT = real.TCP_USER_TIMEOUT
const TCP_WINDOW_CLAMP = real.TCP_WINDOW_CLAMP
const TCP_ZEROCOPY_RECEIVE = real.TCP_ZEROCOPY_RECEIVE
const TCSAFLUSH = real.TCSAFLUSH
const TCSBRK = real.TCSBRK
const TCSBRKP = real.TCSBRKP
const TCSETA = real.TCSETA
const TCSETAF = real.TCSETAF
const TCSETAW = real.TCSETAW
const TCSETS = real.TCSETS
const TCSETS2 = real.TCSETS2
const TCSETSF = real.TCSETSF
const TCSETSF2 = real.TCSETSF2
const TCSETSW = real.TCSETSW
const TCSETSW2 = real.TCSETSW2
const TCSETX = real.TCSETX
const TCSETXF = real.TCSETXF
const TCSETXW = real.TCSETXW
const TCXONC = real.TCXONC
const TIMER_ABSTIME = real.TIMER_ABSTIME
const TIOCCBRK = real.TIOCCBRK
const TIOCCONS = real.TIOCCONS
const TIOCEXCL = real.TIOCEXCL
const TIOCGDEV = real.TIOCGDEV
const TIOCGETD = real.TIOCGETD
const TIOCGEXCL = real.TIOCGEXCL
const TIOCGICOUNT = real.TIOCGICOUNT
const TIOCGISO7816 = real.TIOCGISO7816
const TIOCGLCKTRMIOS = real.TIOCGLCKTRMIOS
const TIOCGPGRP = real.TIOCGPGRP
const TIOCGPKT = real.TIOCGPKT
const TIOCGPTLCK = real.TIOCGPTLCK
const TIOCGPTN = real.TIOCGPTN
const TIOCGPTPEER = real.TIOCGPTPEER
const TIOCGRS485 = real.TIOCGRS485
const TIOCGSERIAL = real.TIOCGSERIAL
const TIOCGSID = real.TIOCGSID
const TIOCGSOFTCAR = real.TIOCGSOFTCAR
const TIOCGWINSZ = real.TIOCGWINSZ
const TIOCINQ = real.TIOCINQ
const TIOCLINUX = real.TIOCLINUX
const TIOCMBIC = real.TIOCMBIC
const TIOCMBIS = real.TIOCMBIS
const TIOCMGET = real.TIOCMGET
const TIOCMIWAIT = real.TIOCMIWAIT
const TIOCMSET = real.TIOCMSET
const TIOCM_CAR = real.TIOCM_CAR
const TIOCM_CD = real.TIOCM_CD
const TIOCM_CTS = real.TIOCM_CTS
const TIOCM_DSR = real.TIOCM_DSR
const TIOCM_DTR = real.TIOCM_DTR
const TIOCM_LE = real.TIOCM_LE
const TIOCM_RI = real.TIOCM_RI
const TIOCM_RNG = real.TIOCM_RNG
const TIOCM_RTS = real.TIOCM_RTS
const TIOCM_SR = real.TIOCM_SR
const TIOCM_ST = real.TIOCM_ST
const TIOCNOTTY = real.TIOCNOTTY
const TIOCNXCL = real.TIOCNXCL
const TIOCOUTQ = real.TIOCOUTQ
const TIOCPKT = real.TIOCPKT
const TIOCPKT_DATA = real.TIOCPKT_DATA
const TIOCPKT_DOSTOP = real.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = real.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = real.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = real.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = real.TIOCPKT_NOSTOP
const TIOCPKT_START = real.TIOCPKT_START
const TIOCPKT_STOP = real.TIOCPKT_STOP
const TIOCSBRK = real.TIOCSBRK
const TIOCSCTTY = real.TIOCSCTTY
const TIOCSERCONFIG = real.TIOCSERCONFIG
const TIOCSERGETLSR = real.TIOCSERGETLSR
const TIOCSERGETMULTI = real.TIOCSERGETMULTI
const TIOCSERGSTRUCT = real.TIOCSERGSTRUCT
const TIOCSERGWILD = real.TIOCSERGWILD
const TIOCSERSETMULTI = real.TIOCSERSETMULTI
const TIOCSERSWILD = real.TIOCSERSWILD
const TIOCSER_TEMT = real.TIOCSER_TEMT
const TIOCSETD = real.TIOCSETD
const TIOCSIG = real.TIOCSIG
const TIOCSISO7816 = real.TIOCSISO7816
const TIOCSLCKTRMIOS = real.TIOCSLCKTRMIOS
const TIOCSPGRP = real.TIOCSPGRP
const TIOCSPTLCK = real.TIOCSPTLCK
const TIOCSRS485 = real.TIOCSRS485
const TIOCSSERIAL = real.TIOCSSERIAL
const TIOCSSOFTCAR = real.TIOCSSOFTCAR
const TIOCSTI = real.TIOCSTI
const TIOCSWINSZ = real.TIOCSWINSZ
const TIOCVHANGUP = real.TIOCVHANGUP
const TMPFS_MAGIC = real.TMPFS_MAGIC
const TOSTOP = real.TOSTOP
const TPACKET_ALIGNMENT = real.TPACKET_ALIGNMENT
const TPACKET_HDRLEN = real.TPACKET_HDRLEN
const TPACKET_V1 = real.TPACKET_V1
const TPACKET_V2 = real.TPACKET_V2
const TPACKET_V3 = real.TPACKET_V3
const TP_STATUS_AVAILABLE = real.TP_STATUS_AVAILABLE
const TP_STATUS_BLK_TMO = real.TP_STATUS_BLK_TMO
const TP_STATUS_COPY = real.TP_STATUS_COPY
const TP_STATUS_CSUMNOTREADY = real.TP_STATUS_CSUMNOTREADY
const TP_STATUS_CSUM_VALID = real.TP_STATUS_CSUM_VALID
const TP_STATUS_KERNEL = real.TP_STATUS_KERNEL
const TP_STATUS_LOSING = real.TP_STATUS_LOSING
const TP_STATUS_SENDING = real.TP_STATUS_SENDING
const TP_STATUS_SEND_REQUEST = real.TP_STATUS_SEND_REQUEST
const TP_STATUS_TS_RAW_HARDWARE = real.TP_STATUS_TS_RAW_HARDWARE
const TP_STATUS_TS_SOFTWARE = real.TP_STATUS_TS_SOFTWARE
const TP_STATUS_TS_SYS_HARDWARE = real.TP_STATUS_TS_SYS_HARDWARE
const TP_STATUS_USER = real.TP_STATUS_USER
const TP_STATUS_VLAN_TPID_VALID = real.TP_STATUS_VLAN_TPID_VALID
const TP_STATUS_VLAN_VALID = real.TP_STATUS_VLAN_VALID
const TP_STATUS_WRONG_FORMAT = real.TP_STATUS_WRONG_FORMAT
const TRACEFS_MAGIC = real.TRACEFS_MAGIC
const TS_COMM_LEN = real.TS_COMM_LEN
const TUNATTACHFILTER = real.TUNATTACHFILTER
const TUNDETACHFILTER = real.TUNDETACHFILTER
const TUNGETFEATURES = real.TUNGETFEATURES
const TUNGETFILTER = real.TUNGETFILTER
const TUNGETIFF = real.TUNGETIFF
const TUNGETSNDBUF = real.TUNGETSNDBUF
const TUNGETVNETBE = real.TUNGETVNETBE
const TUNGETVNETHDRSZ = real.TUNGETVNETHDRSZ
const TUNGETVNETLE = real.TUNGETVNETLE
const TUNSETCARRIER = real.TUNSETCARRIER
const TUNSETDEBUG = real.TUNSETDEBUG
const TUNSETFILTEREBPF = real.TUNSETFILTEREBPF
const TUNSETGROUP = real.TUNSETGROUP
const TUNSETIFF = real.TUNSETIFF
const TUNSETIFINDEX = real.TUNSETIFINDEX
const TUNSETLINK = real.TUNSETLINK
const TUNSETNOCSUM = real.TUNSETNOCSUM
const TUNSETOFFLOAD = real.TUNSETOFFLOAD
const TUNSETOWNER = real.TUNSETOWNER
const TUNSETPERSIST = real.TUNSETPERSIST
const TUNSETQUEUE = real.TUNSETQUEUE
const TUNSETSNDBUF = real.TUNSETSNDBUF
const TUNSETSTEERINGEBPF = real.TUNSETSTEERINGEBPF
const TUNSETTXFILTER = real.TUNSETTXFILTER
const TUNSETVNETBE = real.TUNSETVNETBE
const TUNSETVNETHDRSZ = real.TUNSETVNETHDRSZ
const TUNSETVNETLE = real.TUNSETVNETLE

type Taskstats = real.Taskstats

var Tee = real.Tee

type Termios = real.Termios

var Tgkill = real.Tgkill
var Time = real.Time
var TimeToTimespec = real.TimeToTimespec

type Time_t = real.Time_t

var Times = real.Times

type Timespec = real.Timespec

var TimespecToNsec = real.TimespecToNsec

type Timeval = real.Timeval

var TimevalToNsec = real.TimevalToNsec

type Timex = real.Timex
type Tms = real.Tms
type Tpacket2Hdr = real.Tpacket2Hdr
type Tpacket3Hdr = real.Tpacket3Hdr
type TpacketAuxdata = real.TpacketAuxdata
type TpacketBlockDesc = real.TpacketBlockDesc
type TpacketHdr = real.TpacketHdr
type TpacketHdrVariant1 = real.TpacketHdrVariant1
type TpacketReq = real.TpacketReq
type TpacketReq3 = real.TpacketReq3
type TpacketStats = real.TpacketStats
type TpacketStatsV3 = real.TpacketStatsV3

var Truncate = real.Truncate

const UBI_IOCATT = real.UBI_IOCATT
const UBI_IOCDET = real.UBI_IOCDET
const UBI_IOCEBCH = real.UBI_IOCEBCH
const UBI_IOCEBER = real.UBI_IOCEBER
const UBI_IOCEBISMAP = real.UBI_IOCEBISMAP
const UBI_IOCEBMAP = real.UBI_IOCEBMAP
const UBI_IOCEBUNMAP = real.UBI_IOCEBUNMAP
const UBI_IOCMKVOL = real.UBI_IOCMKVOL
const UBI_IOCRMVOL = real.UBI_IOCRMVOL
const UBI_IOCRNVOL = real.UBI_IOCRNVOL
const UBI_IOCRSVOL = real.UBI_IOCRSVOL
const UBI_IOCSETVOLPROP = real.UBI_IOCSETVOLPROP
const UBI_IOCVOLCRBLK = real.UBI_IOCVOLCRBLK
const UBI_IOCVOLRMBLK = real.UBI_IOCVOLRMBLK
const UBI_IOCVOLUP = real.UBI_IOCVOLUP
const UDF_SUPER_MAGIC = real.UDF_SUPER_MAGIC
const UMOUNT_NOFOLLOW = real.UMOUNT_NOFOLLOW
const USBDEVICE_SUPER_MAGIC = real.USBDEVICE_SUPER_MAGIC
const UTIME_NOW = real.UTIME_NOW
const UTIME_OMIT = real.UTIME_OMIT

type Ucred = real.Ucred

var Umask = real.Umask
var Uname = real.Uname
var UnixCredentials = real.UnixCredentials
var UnixRights = real.UnixRights
var Unlinkat = real.Unlinkat
var Unmount = real.Unmount
var Unsetenv = real.Unsetenv
var Unshare = real.Unshare
var Ustat = real.Ustat

type Ustat_t = real.Ustat_t
type Utimbuf = real.Utimbuf

var Utime = real.Utime
var Utimes = real.Utimes
var UtimesNano = real.UtimesNano
var UtimesNanoAt = real.UtimesNanoAt

type Utsname = real.Utsname

const V9FS_MAGIC = real.V9FS_MAGIC
const VDISCARD = real.VDISCARD
const VEOF = real.VEOF
const VEOL = real.VEOL
const VEOL2 = real.VEOL2
const VERASE = real.VERASE
const VINTR = real.VINTR
const VKILL = real.VKILL
const VLNEXT = real.VLNEXT
const VMADDR_CID_ANY = real.VMADDR_CID_ANY
const VMADDR_CID_HOST = real.VMADDR_CID_HOST
const VMADDR_CID_HYPERVISOR = real.VMADDR_CID_HYPERVISOR
const VMADDR_CID_RESERVED = real.VMADDR_CID_RESERVED
const VMADDR_PORT_ANY = real.VMADDR_PORT_ANY
const VMIN = real.VMIN
const VM_SOCKETS_INVALID_VERSION = real.VM_SOCKETS_INVALID_VERSION
const VQUIT = real.VQUIT
const VREPRINT = real.VREPRINT
const VSTART = real.VSTART
const VSTOP = real.VSTOP
const VSUSP = real.VSUSP
const VSWTC = real.VSWTC
const VT0 = real.VT0
const VT1 = real.VT1
const VTDLY = real.VTDLY
const VTIME = real.VTIME
const VWERASE = real.VWERASE

var Vmsplice = real.Vmsplice

const WALL = real.WALL
const WCLONE = real.WCLONE
const WCONTINUED = real.WCONTINUED
const WDIOC_GETBOOTSTATUS = real.WDIOC_GETBOOTSTATUS
const WDIOC_GETPRETIMEOUT = real.WDIOC_GETPRETIMEOUT
const WDIOC_GETSTATUS = real.WDIOC_GETSTATUS
const WDIOC_GETSUPPORT = real.WDIOC_GETSUPPORT
const WDIOC_GETTEMP = real.WDIOC_GETTEMP
const WDIOC_GETTIMELEFT = real.WDIOC_GETTIMELEFT
const WDIOC_GETTIMEOUT = real.WDIOC_GETTIMEOUT
const WDIOC_KEEPALIVE = real.WDIOC_KEEPALIVE
const WDIOC_SETOPTIONS = real.WDIOC_SETOPTIONS
const WDIOC_SETPRETIMEOUT = real.WDIOC_SETPRETIMEOUT
const WDIOC_SETTIMEOUT = real.WDIOC_SETTIMEOUT
const WEXITED = real.WEXITED
const WIN_ACKMEDIACHANGE = real.WIN_ACKMEDIACHANGE
const WIN_CHECKPOWERMODE1 = real.WIN_CHECKPOWERMODE1
const WIN_CHECKPOWERMODE2 = real.WIN_CHECKPOWERMODE2
const WIN_DEVICE_RESET = real.WIN_DEVICE_RESET
const WIN_DIAGNOSE = real.WIN_DIAGNOSE
const WIN_DOORLOCK = real.WIN_DOORLOCK
const WIN_DOORUNLOCK = real.WIN_DOORUNLOCK
const WIN_DOWNLOAD_MICROCODE = real.WIN_DOWNLOAD_MICROCODE
const WIN_FLUSH_CACHE = real.WIN_FLUSH_CACHE
const WIN_FLUSH_CACHE_EXT = real.WIN_FLUSH_CACHE_EXT
const WIN_FORMAT = real.WIN_FORMAT
const WIN_GETMEDIASTATUS = real.WIN_GETMEDIASTATUS
const WIN_IDENTIFY = real.WIN_IDENTIFY
const WIN_IDENTIFY_DMA = real.WIN_IDENTIFY_DMA
const WIN_IDLEIMMEDIATE = real.WIN_IDLEIMMEDIATE
const WIN_INIT = real.WIN_INIT
const WIN_MEDIAEJECT = real.WIN_MEDIAEJECT
const WIN_MULTREAD = real.WIN_MULTREAD
const WIN_MULTREAD_EXT = real.WIN_MULTREAD_EXT
const WIN_MULTWRITE = real.WIN_MULTWRITE
const WIN_MULTWRITE_EXT = real.WIN_MULTWRITE_EXT
const WIN_NOP = real.WIN_NOP
const WIN_PACKETCMD = real.WIN_PACKETCMD
const WIN_PIDENTIFY = real.WIN_PIDENTIFY
const WIN_POSTBOOT = real.WIN_POSTBOOT
const WIN_PREBOOT = real.WIN_PREBOOT
const WIN_QUEUED_SERVICE = real.WIN_QUEUED_SERVICE
const WIN_READ = real.WIN_READ
const WIN_READDMA = real.WIN_READDMA
const WIN_READDMA_EXT = real.WIN_READDMA_EXT
const WIN_READDMA_ONCE = real.WIN_READDMA_ONCE
const WIN_READDMA_QUEUED = real.WIN_READDMA_QUEUED
const WIN_READDMA_QUEUED_EXT = real.WIN_READDMA_QUEUED_EXT
const WIN_READ_BUFFER = real.WIN_READ_BUFFER
const WIN_READ_EXT = real.WIN_READ_EXT
const WIN_READ_LONG = real.WIN_READ_LONG
const WIN_READ_LONG_ONCE = real.WIN_READ_LONG_ONCE
const WIN_READ_NATIVE_MAX = real.WIN_READ_NATIVE_MAX
const WIN_READ_NATIVE_MAX_EXT = real.WIN_READ_NATIVE_MAX_EXT
const WIN_READ_ONCE = real.WIN_READ_ONCE
const WIN_RECAL = real.WIN_RECAL
const WIN_RESTORE = real.WIN_RESTORE
const WIN_SECURITY_DISABLE = real.WIN_SECURITY_DISABLE
const WIN_SECURITY_ERASE_PREPARE = real.WIN_SECURITY_ERASE_PREPARE
const WIN_SECURITY_ERASE_UNIT = real.WIN_SECURITY_ERASE_UNIT
const WIN_SECURITY_FREEZE_LOCK = real.WIN_SECURITY_FREEZE_LOCK
const WIN_SECURITY_SET_PASS = real.WIN_SECURITY_SET_PASS
const WIN_SECURITY_UNLOCK = real.WIN_SECURITY_UNLOCK
const WIN_SEEK = real.WIN_SEEK
const WIN_SETFEATURES = real.WIN_SETFEATURES
const WIN_SETIDLE1 = real.WIN_SETIDLE1
const WIN_SETIDLE2 = real.WIN_SETIDLE2
const WIN_SETMULT = real.WIN_SETMULT
const WIN_SET_MAX = real.WIN_SET_MAX
const WIN_SET_MAX_EXT = real.WIN_SET_MAX_EXT
const WIN_SLEEPNOW1 = real.WIN_SLEEPNOW1
const WIN_SLEEPNOW2 = real.WIN_SLEEPNOW2
const WIN_SMART = real.WIN_SMART
const WIN_SPECIFY = real.WIN_SPECIFY
const WIN_SRST = real.WIN_SRST
const WIN_STANDBY = real.WIN_STANDBY
const WIN_STANDBY2 = real.WIN_STANDBY2
const WIN_STANDBYNOW1 = real.WIN_STANDBYNOW1
const WIN_STANDBYNOW2 = real.WIN_STANDBYNOW2
const WIN_VERIFY = real.WIN_VERIFY
const WIN_VERIFY_EXT = real.WIN_VERIFY_EXT
const WIN_VERIFY_ONCE = real.WIN_VERIFY_ONCE
const WIN_WRITE = real.WIN_WRITE
const WIN_WRITEDMA = real.WIN_WRITEDMA
const WIN_WRITEDMA_EXT = real.WIN_WRITEDMA_EXT
const WIN_WRITEDMA_ONCE = real.WIN_WRITEDMA_ONCE
const WIN_WRITEDMA_QUEUED = real.WIN_WRITEDMA_QUEUED
const WIN_WRITEDMA_QUEUED_EXT = real.WIN_WRITEDMA_QUEUED_EXT
const WIN_WRITE_BUFFER = real.WIN_WRITE_BUFFER
const WIN_WRITE_EXT = real.WIN_WRITE_EXT
const WIN_WRITE_LONG = real.WIN_WRITE_LONG
const WIN_WRITE_LONG_ONCE = real.WIN_WRITE_LONG_ONCE
const WIN_WRITE_ONCE = real.WIN_WRITE_ONCE
const WIN_WRITE_SAME = real.WIN_WRITE_SAME
const WIN_WRITE_VERIFY = real.WIN_WRITE_VERIFY
const WNOHANG = real.WNOHANG
const WNOTHREAD = real.WNOTHREAD
const WNOWAIT = real.WNOWAIT
const WORDSIZE = real.WORDSIZE
const WSTOPPED = real.WSTOPPED
const WUNTRACED = real.WUNTRACED
const W_OK = real.W_OK

var Wait4 = real.Wait4

type WaitStatus = real.WaitStatus
type Winsize = real.Winsize

var Write = real.Write

const XATTR_CREATE = real.XATTR_CREATE
const XATTR_REPLACE = real.XATTR_REPLACE
const XCASE = real.XCASE

type XDPDesc = real.XDPDesc
type XDPMmapOffsets = real.XDPMmapOffsets
type XDPRingOffset = real.XDPRingOffset
type XDPStatistics = real.XDPStatistics
type XDPUmemReg = real.XDPUmemReg

const XDP_COPY = real.XDP_COPY
const XDP_FLAGS_DRV_MODE = real.XDP_FLAGS_DRV_MODE
const XDP_FLAGS_HW_MODE = real.XDP_FLAGS_HW_MODE
const XDP_FLAGS_MASK = real.XDP_FLAGS_MASK
const XDP_FLAGS_MODES = real.XDP_FLAGS_MODES
const XDP_FLAGS_SKB_MODE = real.XDP_FLAGS_SKB_MODE
const XDP_FLAGS_UPDATE_IF_NOEXIST = real.XDP_FLAGS_UPDATE_IF_NOEXIST
const XDP_MMAP_OFFSETS = real.XDP_MMAP_OFFSETS
const XDP_PGOFF_RX_RING = real.XDP_PGOFF_RX_RING
const XDP_PGOFF_TX_RING = real.XDP_PGOFF_TX_RING
const XDP_RX_RING = real.XDP_RX_RING
const XDP_SHARED_UMEM = real.XDP_SHARED_UMEM
const XDP_STATISTICS = real.XDP_STATISTICS
const XDP_TX_RING = real.XDP_TX_RING
const XDP_UMEM_COMPLETION_RING = real.XDP_UMEM_COMPLETION_RING
const XDP_UMEM_FILL_RING = real.XDP_UMEM_FILL_RING
const XDP_UMEM_PGOFF_COMPLETION_RING = real.XDP_UMEM_PGOFF_COMPLETION_RING
const XDP_UMEM_PGOFF_FILL_RING = real.XDP_UMEM_PGOFF_FILL_RING
const XDP_UMEM_REG = real.XDP_UMEM_REG
const XDP_ZEROCOPY = real.XDP_ZEROCOPY
const XENFS_SUPER_MAGIC = real.XENFS_SUPER_MAGIC
const XFS_SUPER_MAGIC = real.XFS_SUPER_MAGIC
const XTABS = real.XTABS
const X_OK = real.X_OK
const ZSMALLOC_MAGIC = real.ZSMALLOC_MAGIC
