# sourced by demo.sh (cwd is the repository): builds the repository's sources
# with small stand-ins for folly, glog and gflags, and the demo.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/wdt" "$T/o"
for f in "$R"/*.h "$R"/util; do ln -s "$f" "$T/inc/wdt/"; done
sed -e 's/@WDT_VERSION_MAJOR@/1/; s/@WDT_VERSION_MINOR@/32/; s/@WDT_VERSION_PATCH@/0/; s/@WDT_VERSION@/1.32.0/; s/^#cmakedefine \([A-Z_]*\).*/#define \1 1/' "$R/WdtConfig.h.in" > "$T/inc/wdt/WdtConfig.h"
# build OUT FLAGS... -- SOURCES...   (sources relative to the repository, or to the demo's folder)
build() {
  out=$1; shift; fl=""
  while [ "$1" != -- ]; do fl="$fl $1"; shift; done; shift
  n=0; objs=""; pids=""
  for s in "$@" crc.cpp; do
    if [ -f "$D/$s" ]; then p="$D/$s"; else p="$R/$s"; fi
    n=$((n+1)); o="$T/o/$n.o"; objs="$objs $o"
    g++ -std=c++17 -g -O1 $fl -include cstdint -include algorithm -include cmath -include cstring -include mutex -include shared_mutex -include thread -include functional -I"$D/inc" -I"$T/inc" -c "$p" -o "$o" > "$o.log" 2>&1 &
    pids="$pids $!"
  done
  for p in $pids; do wait $p || { cat "$T"/o/*.log | grep -m5 error >&2; echo "does not build" >&2; exit 2; }; done
  g++ $fl $objs -o "$T/$out" -lcrypto -lpthread || exit 2
}
CORE="Protocol.cpp ErrorCodes.cpp Reporting.cpp WdtOptions.cpp WdtTransferRequest.cpp util/CommonImpl.cpp util/EncryptionUtils.cpp util/SerializationUtil.cpp"
LOG="$CORE util/TransferLogManager.cpp util/FileCreator.cpp util/FileWriter.cpp"
ALL="$LOG Receiver.cpp ReceiverThread.cpp Sender.cpp SenderThread.cpp Throttler.cpp WdtBase.cpp WdtResourceController.cpp WdtThread.cpp util/ClientSocket.cpp util/DirectorySourceQueue.cpp util/FileByteSource.cpp util/ServerSocket.cpp util/Stats.cpp util/ThreadTransferHistory.cpp util/ThreadsController.cpp util/WdtSocket.cpp"
