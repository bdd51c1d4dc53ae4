! C interface to matmult_mod.  Matrices are passed as sections of a larger array,
! so that writes outside a matrix are seen, contiguous or with a stride.
module mc_mm
  use iso_c_binding
  use matmult_mod
  implicit none
contains
  subroutine mcm_init(n, m, l, s, wa, wb) bind(C)
    integer(c_int), value :: n, m, l, s
    real(c_double) :: wa(0:s*n+1, 0:s*m+1), wb(0:s*m+1, 0:s*l+1)
    call initmat(wa(1:s*n:s, 1:s*m:s), wb(1:s*m:s, 1:s*l:s))
  end subroutine
  subroutine mcm_mul(which, n, m, l, s, wa, wb, wc) bind(C)
    integer(c_int), value :: which, n, m, l, s
    real(c_double) :: wa(0:s*n+1, 0:s*m+1), wb(0:s*m+1, 0:s*l+1), wc(0:s*n+1, 0:s*l+1)
    if (which == 0) then
      call matmult0(wa(1:s*n:s, 1:s*m:s), wb(1:s*m:s, 1:s*l:s), wc(1:s*n:s, 1:s*l:s))
    else
      call matmult1(wa(1:s*n:s, 1:s*m:s), wb(1:s*m:s, 1:s*l:s), wc(1:s*n:s, 1:s*l:s))
    endif
  end subroutine
end module
