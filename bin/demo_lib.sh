# Run the built pgbackrest in a scratch directory: sourced by demo.sh with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
exe=$PWD/_build/src/pgbackrest
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "${tmp:?}"' EXIT
cd "$tmp" || exit 3
python3 "$here/cluster.py" "$tmp/pg" || exit 3
export PGBACKREST_STANZA=demo PGBACKREST_PG1_PATH=$tmp/pg PGBACKREST_REPO1_PATH=$tmp/repo PGBACKREST_LOG_LEVEL_CONSOLE=off
export PGBACKREST_LOG_LEVEL_STDERR=off PGBACKREST_LOG_LEVEL_FILE=off PGBACKREST_LOCK_PATH=$tmp/lock PGBACKREST_SPOOL_PATH=$tmp/spool
pgb() { timeout 120 "$exe" --no-config --allow-root "$@"; }
backup() { pgb backup --no-online --type="$@"; }
label() { ls "$tmp/repo/backup/demo" | grep '^2' | sort | tail -n 1; }                 # newest backup
fail() { echo "demo: $*"; exit 1; }
