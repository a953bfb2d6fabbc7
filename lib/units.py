"""All the units."""
import u_int  # noqa: F401
import u_header  # noqa: F401
import u_value  # noqa: F401
import u_send  # noqa
import u_recv  # noqa
import u_reply  # noqa
import u_again, u_text, u_time, u_keys, u_engine, u_py, u_total, u_extent, u_round  # noqa
