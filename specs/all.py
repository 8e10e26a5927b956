from . import world, mpi, coll, c_gmr, c_buffer, c_onesided
from . import c_sync, c_handle, c_registry, c_groups, c_bufvec, c_msg, c_gop, c_mutex, c_init, c_vector, c_vecfront, c_strided
