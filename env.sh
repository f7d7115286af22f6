# Sourced by every command in MANIFEST.json.
# The interface package is taken from the build if it was generated from the
# same sources as /repo has now, and rebuilt in a scratch folder otherwise.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO_DIR=${VERIF_REPO:-/repo}
unset PYTHONHOME PYTHONSTARTUP
export LANG=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export _ROS_WHEELS_BOOTSTRAP_COMPLETE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export ROS_LOCALHOST_ONLY=1 RMW_IMPLEMENTATION=rmw_fastrtps_cpp
VERIF_TMP=$(mktemp -d /tmp/verif.XXXXXX)
export VERIF_TMP ROS_LOG_DIR=$VERIF_TMP/log
mkdir -p "$ROS_LOG_DIR"
trap 'rm -rf "$VERIF_TMP"' EXIT

_iface_same() {
    local share=$1/share/ros_bt_py_interfaces d f n=0
    [ -d "$share" ] || return 1
    for d in msg srv action; do
        for f in "$share/$d"/*.$d; do
            [ -e "$f" ] || continue
            n=$((n + 1))
            cmp -s "$f" "$REPO_DIR/ros_bt_py_interfaces/$d/$(basename "$f")" || return 1
        done
    done
    [ $n -gt 0 ] || return 1
    # every interface the build file lists has to be there
    for f in $(grep -oE '^[[:space:]]*"(msg|srv|action)/[A-Za-z0-9_]+\.(msg|srv|action)"' "$REPO_DIR/ros_bt_py_interfaces/CMakeLists.txt" | tr -d ' "\t'); do
        [ -e "$share/$f" ] || return 1
    done
    return 0
}

IFACE_PREFIX=/opt/bt_build/install
if ! _iface_same "$IFACE_PREFIX"; then
    IFACE_PREFIX=$VERIF_TMP/install
    (
        set -e
        env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv CMAKE_PREFIX_PATH=/opt/venv \
            /usr/bin/cmake -S "$REPO_DIR/ros_bt_py_interfaces" -B "$VERIF_TMP/obj" -DCMAKE_INSTALL_PREFIX="$IFACE_PREFIX" \
            -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=OFF -DPython3_EXECUTABLE=/opt/venv/bin/python3
        env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv CMAKE_PREFIX_PATH=/opt/venv \
            /usr/bin/cmake --build "$VERIF_TMP/obj" -j8
        env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv CMAKE_PREFIX_PATH=/opt/venv \
            /usr/bin/cmake --install "$VERIF_TMP/obj"
    ) > "$VERIF_TMP/iface.log" 2>&1 || { tail -20 "$VERIF_TMP/iface.log" >&2; exit 3; }
fi
export AMENT_PREFIX_PATH="$IFACE_PREFIX:/opt/venv"
export PYTHONPATH="$VERIF_DIR:$VERIF_DIR/shims:$REPO_DIR/ros_bt_py:$IFACE_PREFIX/lib/python3.12/site-packages"
LD_LIBRARY_PATH="$IFACE_PREFIX/lib:/opt/venv/lib"
for d in /opt/venv/lib/python3.12/site-packages/ros_*.libs; do LD_LIBRARY_PATH="$LD_LIBRARY_PATH:$d"; done
export LD_LIBRARY_PATH
