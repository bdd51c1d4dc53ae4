! C interface to a Fortran solver (module upwind_mod of the repository)
module mc_wrap
  use iso_c_binding
  use upwind_mod
  implicit none
contains
  function mcf_new(nd, v, l, n) bind(C) result(h)
    integer(c_int), value :: nd
    real(c_double), intent(in) :: v(nd), l(nd)
    integer(c_int), intent(in) :: n(nd)
    type(c_ptr) :: h
    type(upwind_type), pointer :: p
    real(r8) :: vv(nd), ll(nd)
    integer :: nn(nd)
    allocate(p)
    vv = v; ll = l; nn = n
    call upwind_new(p, vv, ll, nn)
    h = c_loc(p)
  end function
  subroutine mcf_advect(h, dt) bind(C)
    type(c_ptr), value :: h
    real(c_double), value :: dt
    type(upwind_type), pointer :: p
    call c_f_pointer(h, p)
    call upwind_advect(p, real(dt, r8))
  end subroutine
  function mcf_size(h) bind(C) result(n)
    type(c_ptr), value :: h
    integer(c_int) :: n
    type(upwind_type), pointer :: p
    call c_f_pointer(h, p)
    n = size(p % f)
  end function
  subroutine mcf_field(h, x) bind(C)
    type(c_ptr), value :: h
    real(c_double), intent(out) :: x(*)
    type(upwind_type), pointer :: p
    integer :: i
    call c_f_pointer(h, p)
    do i = 1, size(p % f)
      x(i) = p % f(lbound(p % f, 1) + i - 1)
    enddo
  end subroutine
  subroutine mcf_save(h, nm, ln) bind(C)
    type(c_ptr), value :: h
    integer(c_int), value :: ln
    character(kind=c_char), intent(in) :: nm(ln)
    type(upwind_type), pointer :: p
    character(len=ln) :: s
    integer :: i
    do i = 1, ln
      s(i:i) = nm(i)
    enddo
    call c_f_pointer(h, p)
    call upwind_saveVTK(p, s)
  end subroutine
  subroutine mcf_del(h) bind(C)
    type(c_ptr), value :: h
    type(upwind_type), pointer :: p
    call c_f_pointer(h, p)
    call upwind_del(p)
    deallocate(p)
  end subroutine
  subroutine mcf_flush() bind(C)
    flush(6)
  end subroutine
end module
