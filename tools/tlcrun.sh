#!/bin/bash
# tools/tlcrun.sh MODULE [CFG]: run TLC on a module of spec/ outside the runner (development aid)
cd "$(dirname "$0")/../spec"
exec java -Xss64m -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:../.build/java tlc2.TLC -workers 8 -noTE -metadir /tmp/tlcmd -config ${2:-Judge.cfg} $1.tla
