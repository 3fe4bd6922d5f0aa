import ctypes,errno
L=ctypes.CDLL('/tmp/w/libre.so',use_errno=True)
L.reiconv_open_from_name.restype=ctypes.c_void_p
L.reiconv_open_from_name.argtypes=[ctypes.c_char_p,ctypes.c_char_p,ctypes.c_int]
L.reiconv_iconv.restype=ctypes.c_size_t
L.reiconv_iconv.argtypes=[ctypes.c_void_p]+[ctypes.c_void_p]*4
L.reiconv_handle_close.argtypes=[ctypes.c_void_p]
def conv(fr,to,data,flags=0):
    """one-shot convert + flush on a fresh descriptor; returns (out, err, consumed, ret)"""
    cd=L.reiconv_open_from_name(fr.encode(),to.encode(),flags)
    assert cd not in (None,2**64-1),(fr,to)
    r=use(cd,data); L.reiconv_handle_close(cd); return r
ob=ctypes.create_string_buffer(1<<16)
def use(cd,data):
    ib=ctypes.create_string_buffer(data,len(data)+1)
    ip=ctypes.c_void_p(ctypes.addressof(ib)); il=ctypes.c_size_t(len(data))
    op=ctypes.c_void_p(ctypes.addressof(ob)); ol=ctypes.c_size_t(1<<16)
    ctypes.set_errno(0)
    r=L.reiconv_iconv(cd,ctypes.byref(ip),ctypes.byref(il),ctypes.byref(op),ctypes.byref(ol))
    e=ctypes.get_errno() if r==2**64-1 else 0
    if e==0: L.reiconv_iconv(cd,None,None,ctypes.byref(op),ctypes.byref(ol))
    out=ob.raw[:(1<<16)-ol.value]
    L.reiconv_iconv(cd,None,None,None,None)
    return out,e,len(data)-il.value,r
