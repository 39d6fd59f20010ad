import vlib
