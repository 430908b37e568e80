# Builds the checker into bin/ (sourced by setup.sh and run.sh).
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
mkdir -p bin
if [ ! -x bin/njcheck ] || [ -n "$(find checker -newer bin/njcheck -type f | head -1)" ]; then
  (cd checker && go build -o ../bin/njcheck.$$ . && mv ../bin/njcheck.$$ ../bin/njcheck) || { echo "building the checker failed"; false; }
fi
