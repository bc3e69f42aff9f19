! Calls every function of the Fortran module the way a Fortran program would, for check C30 (written by a generator).
! Arrays are handed over as sections of stride s of a guarded buffer; 'spoiled' counts guard values overwritten.
module fguard
  use, intrinsic :: iso_c_binding
  implicit none
  integer(c_int), bind(c, name='f_spoiled') :: spoiled = 0
contains
  subroutine open_(b, r, n, s)
    real(c_double), allocatable, target, intent(out) :: b(:)
    real(c_double), intent(in) :: r(*)
    integer(c_int), intent(in) :: n, s
    integer :: k
    allocate(b(n * s + 8))
    b = -7.25d77
    do k = 1, n
      b(4 + (k - 1) * s + 1) = r(k)
    end do
  end subroutine
  subroutine close_(b, r, n, s)
    real(c_double), allocatable, target, intent(inout) :: b(:)
    real(c_double), intent(inout) :: r(*)
    integer(c_int), intent(in) :: n, s
    integer :: k
    do k = 1, n
      r(k) = b(4 + (k - 1) * s + 1)
      b(4 + (k - 1) * s + 1) = -7.25d77
    end do
    do k = 1, size(b)
      if (b(k) /= -7.25d77) spoiled = spoiled + 1
    end do
  end subroutine
  function text(c, n) result(t)
    integer(c_int), intent(in) :: n
    character(kind=c_char), intent(in) :: c(*)
    character(len=n) :: t
    integer :: k
    do k = 1, n
      t(k:k) = c(k)
    end do
  end function
end module

function f_NCoupledDOF(h, a0) bind(c, name='f_NCoupledDOF') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_NCoupledDOF(hh, a0)
end function

function f_SetVerbosity(h, a0) bind(c, name='f_SetVerbosity') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetVerbosity(hh, w0)
end function

function f_SetLogFile(h, a0, n0) bind(c, name='f_SetLogFile') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SetLogFile(hh, text(a0, n0))
end function

function f_SetLogLevel(h, a0) bind(c, name='f_SetLogLevel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetLogLevel(hh, w0)
end function

function f_Log(h, a0, a1, n1) bind(c, name='f_Log') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    character(kind=c_char), intent(in) :: a1(*)
    integer(c_int), value :: n1
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_Log(hh, w0, text(a1, n1))
end function

function f_Init(h, a0, n0, s0, a1, n1, s1) bind(c, name='f_Init') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    call open_(b1, a1, n1, s1)
    r = MD_Init(hh, b0(5:4 + n0 * s0:s0), b1(5:4 + n1 * s1:s1))
    call close_(b0, a0, n0, s0)
    call close_(b1, a1, n1, s1)
end function

function f_Init_NoIC(h, a0, n0, s0, a1, n1, s1) bind(c, name='f_Init_NoIC') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    call open_(b1, a1, n1, s1)
    r = MD_Init_NoIC(hh, b0(5:4 + n0 * s0:s0), b1(5:4 + n1 * s1:s1))
    call close_(b0, a0, n0, s0)
    call close_(b1, a1, n1, s1)
end function

function f_Step(h, a0, n0, s0, a1, n1, s1, a2, n2, s2, a3, a4) bind(c, name='f_Step') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    real(c_double), intent(inout) :: a2(*)
    integer(c_int), value :: n2, s2
    real(c_double), allocatable, target :: b2(:)
    real(c_double), intent(inout) :: a3
    real(c_double), intent(inout) :: a4
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    call open_(b1, a1, n1, s1)
    call open_(b2, a2, n2, s2)
    r = MD_Step(hh, b0(5:4 + n0 * s0:s0), b1(5:4 + n1 * s1:s1), b2(5:4 + n2 * s2:s2), a3, a4)
    call close_(b0, a0, n0, s0)
    call close_(b1, a1, n1, s1)
    call close_(b2, a2, n2, s2)
end function

function f_Close(h) bind(c, name='f_Close') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int) :: r
    hh = h
    r = MD_Close(hh)
end function

function f_GetWaves(h) bind(c, name='f_GetWaves') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    type(c_ptr) :: r
    hh = h
    r = MD_GetWaves(hh)
end function

function f_GetSeafloor(h) bind(c, name='f_GetSeafloor') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    type(c_ptr) :: r
    hh = h
    r = MD_GetSeafloor(hh)
end function

function f_ExternalWaveKinInit(h, a0) bind(c, name='f_ExternalWaveKinInit') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_ExternalWaveKinInit(hh, a0)
end function

function f_ExternalWaveKinGetN(h, a0) bind(c, name='f_ExternalWaveKinGetN') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_ExternalWaveKinGetN(hh, a0)
end function

function f_ExternalWaveKinGetCoordinates(h, a0, n0, s0) bind(c, name='f_ExternalWaveKinGetCoordinates') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_ExternalWaveKinGetCoordinates(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_ExternalWaveKinSet(h, a0, n0, s0, a1, n1, s1, a2) bind(c, name='f_ExternalWaveKinSet') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    real(c_double), value :: a2
    real(c_double) :: w2
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    call open_(b1, a1, n1, s1)
    w2 = a2
    r = MD_ExternalWaveKinSet(hh, b0(5:4 + n0 * s0:s0), b1(5:4 + n1 * s1:s1), w2)
    call close_(b0, a0, n0, s0)
    call close_(b1, a1, n1, s1)
end function

function f_GetNumberBodies(h, a0) bind(c, name='f_GetNumberBodies') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetNumberBodies(hh, a0)
end function

function f_GetBody(h, a0) bind(c, name='f_GetBody') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    type(c_ptr) :: r
    hh = h
    w0 = a0
    r = MD_GetBody(hh, w0)
end function

function f_GetNumberRods(h, a0) bind(c, name='f_GetNumberRods') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetNumberRods(hh, a0)
end function

function f_GetRod(h, a0) bind(c, name='f_GetRod') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    type(c_ptr) :: r
    hh = h
    w0 = a0
    r = MD_GetRod(hh, w0)
end function

function f_GetNumberPoints(h, a0) bind(c, name='f_GetNumberPoints') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetNumberPoints(hh, a0)
end function

function f_GetPoint(h, a0) bind(c, name='f_GetPoint') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    type(c_ptr) :: r
    hh = h
    w0 = a0
    r = MD_GetPoint(hh, w0)
end function

function f_GetNumberLines(h, a0) bind(c, name='f_GetNumberLines') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetNumberLines(hh, a0)
end function

function f_GetLine(h, a0) bind(c, name='f_GetLine') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    type(c_ptr) :: r
    hh = h
    w0 = a0
    r = MD_GetLine(hh, w0)
end function

function f_GetFASTtens(h, a0, a1, n1, s1, a2, n2, s2, a3, n3, s3, a4, n4, s4) bind(c, name='f_GetFASTtens') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    real(c_double), intent(inout) :: a2(*)
    integer(c_int), value :: n2, s2
    real(c_double), allocatable, target :: b2(:)
    real(c_double), intent(inout) :: a3(*)
    integer(c_int), value :: n3, s3
    real(c_double), allocatable, target :: b3(:)
    real(c_double), intent(inout) :: a4(*)
    integer(c_int), value :: n4, s4
    real(c_double), allocatable, target :: b4(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    call open_(b2, a2, n2, s2)
    call open_(b3, a3, n3, s3)
    call open_(b4, a4, n4, s4)
    r = MD_GetFASTtens(hh, w0, b1(5:4 + n1 * s1:s1), b2(5:4 + n2 * s2:s2), b3(5:4 + n3 * s3:s3), b4(5:4 + n4 * s4:s4))
    call close_(b1, a1, n1, s1)
    call close_(b2, a2, n2, s2)
    call close_(b3, a3, n3, s3)
    call close_(b4, a4, n4, s4)
end function

function f_Save(h, a0, n0) bind(c, name='f_Save') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_Save(hh, text(a0, n0))
end function

function f_Load(h, a0, n0) bind(c, name='f_Load') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_Load(hh, text(a0, n0))
end function

function f_SaveVTK(h, a0, n0) bind(c, name='f_SaveVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SaveVTK(hh, text(a0, n0))
end function

function f_GetWavesKin(h, a0, a1, a2, a3, a4, n4, s4, a5, n5, s5, a6, a7, a8) bind(c, name='f_GetWavesKin') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), value :: a0
    real(c_double) :: w0
    real(c_double), value :: a1
    real(c_double) :: w1
    real(c_double), value :: a2
    real(c_double) :: w2
    real(c_double), value :: a3
    real(c_double) :: w3
    real(c_double), intent(inout) :: a4(*)
    integer(c_int), value :: n4, s4
    real(c_double), allocatable, target :: b4(:)
    real(c_double), intent(inout) :: a5(*)
    integer(c_int), value :: n5, s5
    real(c_double), allocatable, target :: b5(:)
    real(c_double), intent(inout) :: a6
    real(c_double), intent(inout) :: a7
    type(c_ptr), value :: a8
    type(c_ptr) :: w8
    integer(c_int) :: r
    hh = h
    w0 = a0
    w1 = a1
    w2 = a2
    w3 = a3
    call open_(b4, a4, n4, s4)
    call open_(b5, a5, n5, s5)
    w8 = a8
    r = MD_GetWavesKin(hh, w0, w1, w2, w3, b4(5:4 + n4 * s4:s4), b5(5:4 + n5 * s5:s5), a6, a7, w8)
    call close_(b4, a4, n4, s4)
    call close_(b5, a5, n5, s5)
end function

function f_GetDepthAt(h, a0, a1, a2) bind(c, name='f_GetDepthAt') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), value :: a0
    real(c_double) :: w0
    real(c_double), value :: a1
    real(c_double) :: w1
    real(c_double), intent(inout) :: a2
    integer(c_int) :: r
    hh = h
    w0 = a0
    w1 = a1
    r = MD_GetDepthAt(hh, w0, w1, a2)
end function

function f_GetAverageDepth(h, a0) bind(c, name='f_GetAverageDepth') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetAverageDepth(hh, a0)
end function

function f_GetMinDepth(h, a0) bind(c, name='f_GetMinDepth') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetMinDepth(hh, a0)
end function

function f_GetBodyID(h, a0) bind(c, name='f_GetBodyID') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetBodyID(hh, a0)
end function

function f_GetBodyType(h, a0) bind(c, name='f_GetBodyType') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetBodyType(hh, a0)
end function

function f_GetBodyState(h, a0, n0, s0, a1, n1, s1) bind(c, name='f_GetBodyState') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    call open_(b1, a1, n1, s1)
    r = MD_GetBodyState(hh, b0(5:4 + n0 * s0:s0), b1(5:4 + n1 * s1:s1))
    call close_(b0, a0, n0, s0)
    call close_(b1, a1, n1, s1)
end function

function f_GetBodyPos(h, a0, n0, s0) bind(c, name='f_GetBodyPos') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyPos(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetBodyAngle(h, a0, n0, s0) bind(c, name='f_GetBodyAngle') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyAngle(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetBodyVel(h, a0, n0, s0) bind(c, name='f_GetBodyVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyVel(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetBodyAngVel(h, a0, n0, s0) bind(c, name='f_GetBodyAngVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyAngVel(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetBodyForce(h, a0, n0, s0) bind(c, name='f_GetBodyForce') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyForce(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetBodyM(h, a0, n0, s0) bind(c, name='f_GetBodyM') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetBodyM(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_SaveBodyVTK(h, a0, n0) bind(c, name='f_SaveBodyVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SaveBodyVTK(hh, text(a0, n0))
end function

function f_UseBodyVTK(h, a0, n0) bind(c, name='f_UseBodyVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_UseBodyVTK(hh, text(a0, n0))
end function

function f_GetRodID(h, a0) bind(c, name='f_GetRodID') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetRodID(hh, a0)
end function

function f_GetRodType(h, a0) bind(c, name='f_GetRodType') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetRodType(hh, a0)
end function

function f_GetRodForce(h, a0, n0, s0) bind(c, name='f_GetRodForce') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetRodForce(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetRodM(h, a0, n0, s0) bind(c, name='f_GetRodM') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetRodM(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetRodN(h, a0) bind(c, name='f_GetRodN') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetRodN(hh, a0)
end function

function f_GetRodNumberNodes(h, a0) bind(c, name='f_GetRodNumberNodes') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetRodNumberNodes(hh, a0)
end function

function f_GetRodNodePos(h, a0, a1, n1, s1) bind(c, name='f_GetRodNodePos') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetRodNodePos(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetRodNodeVel(h, a0, a1, n1, s1) bind(c, name='f_GetRodNodeVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetRodNodeVel(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_SaveRodVTK(h, a0, n0) bind(c, name='f_SaveRodVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SaveRodVTK(hh, text(a0, n0))
end function

function f_GetPointID(h, a0) bind(c, name='f_GetPointID') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetPointID(hh, a0)
end function

function f_GetPointType(h, a0) bind(c, name='f_GetPointType') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetPointType(hh, a0)
end function

function f_GetPointPos(h, a0, n0, s0) bind(c, name='f_GetPointPos') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetPointPos(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetPointVel(h, a0, n0, s0) bind(c, name='f_GetPointVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetPointVel(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetPointForce(h, a0, n0, s0) bind(c, name='f_GetPointForce') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetPointForce(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetPointM(h, a0, n0, s0) bind(c, name='f_GetPointM') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_GetPointM(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetPointNAttached(h, a0) bind(c, name='f_GetPointNAttached') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetPointNAttached(hh, a0)
end function

function f_GetPointAttached(h, a0, a1, a2) bind(c, name='f_GetPointAttached') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    type(c_ptr), intent(inout) :: a1
    integer(c_int), intent(inout) :: a2
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_GetPointAttached(hh, w0, a1, a2)
end function

function f_SavePointVTK(h, a0, n0) bind(c, name='f_SavePointVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SavePointVTK(hh, text(a0, n0))
end function

function f_GetLineID(h, a0) bind(c, name='f_GetLineID') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineID(hh, a0)
end function

function f_GetLineN(h, a0) bind(c, name='f_GetLineN') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineN(hh, a0)
end function

function f_GetLineNumberNodes(h, a0) bind(c, name='f_GetLineNumberNodes') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineNumberNodes(hh, a0)
end function

function f_GetLineUnstretchedLength(h, a0) bind(c, name='f_GetLineUnstretchedLength') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineUnstretchedLength(hh, a0)
end function

function f_SetLineUnstretchedLength(h, a0) bind(c, name='f_SetLineUnstretchedLength') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), value :: a0
    real(c_double) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetLineUnstretchedLength(hh, w0)
end function

function f_SetLineUnstretchedLengthVel(h, a0) bind(c, name='f_SetLineUnstretchedLengthVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), value :: a0
    real(c_double) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetLineUnstretchedLengthVel(hh, w0)
end function

function f_IsLineConstantEA(h, a0) bind(c, name='f_IsLineConstantEA') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_IsLineConstantEA(hh, a0)
end function

function f_GetLineConstantEA(h, a0) bind(c, name='f_GetLineConstantEA') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineConstantEA(hh, a0)
end function

function f_SetLineConstantEA(h, a0) bind(c, name='f_SetLineConstantEA') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), value :: a0
    real(c_double) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetLineConstantEA(hh, w0)
end function

function f_IsLinePressBend(h, a0) bind(c, name='f_IsLinePressBend') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_IsLinePressBend(hh, a0)
end function

function f_SetLinePressBend(h, a0) bind(c, name='f_SetLinePressBend') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_SetLinePressBend(hh, w0)
end function

function f_SetLinePressInt(h, a0, n0, s0) bind(c, name='f_SetLinePressInt') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0(*)
    integer(c_int), value :: n0, s0
    real(c_double), allocatable, target :: b0(:)
    integer(c_int) :: r
    hh = h
    call open_(b0, a0, n0, s0)
    r = MD_SetLinePressInt(hh, b0(5:4 + n0 * s0:s0))
    call close_(b0, a0, n0, s0)
end function

function f_GetLineNodePos(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodePos') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodePos(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeVel(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeVel') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeVel(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeForce(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeForce') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeForce(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeTen(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeTen') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeTen(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeBendStiff(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeBendStiff') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeBendStiff(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeWeight(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeWeight') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeWeight(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeDrag(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeDrag') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeDrag(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeFroudeKrilov(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeFroudeKrilov') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeFroudeKrilov(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeSeabedForce(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeSeabedForce') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeSeabedForce(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineNodeCurv(h, a0, a1) bind(c, name='f_GetLineNodeCurv') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1
    integer(c_int) :: r
    hh = h
    w0 = a0
    r = MD_GetLineNodeCurv(hh, w0, a1)
end function

function f_GetLineNodeM(h, a0, a1, n1, s1) bind(c, name='f_GetLineNodeM') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    integer(c_int), value :: a0
    integer(c_int) :: w0
    real(c_double), intent(inout) :: a1(*)
    integer(c_int), value :: n1, s1
    real(c_double), allocatable, target :: b1(:)
    integer(c_int) :: r
    hh = h
    w0 = a0
    call open_(b1, a1, n1, s1)
    r = MD_GetLineNodeM(hh, w0, b1(5:4 + n1 * s1:s1))
    call close_(b1, a1, n1, s1)
end function

function f_GetLineMaxTen(h, a0) bind(c, name='f_GetLineMaxTen') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineMaxTen(hh, a0)
end function

function f_GetLineFairTen(h, a0) bind(c, name='f_GetLineFairTen') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    real(c_double), intent(inout) :: a0
    integer(c_int) :: r
    hh = h
    r = MD_GetLineFairTen(hh, a0)
end function

function f_SaveLineVTK(h, a0, n0) bind(c, name='f_SaveLineVTK') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    type(c_ptr), value :: h
    type(c_ptr) :: hh
    character(kind=c_char), intent(in) :: a0(*)
    integer(c_int), value :: n0
    integer(c_int) :: r
    hh = h
    r = MD_SaveLineVTK(hh, text(a0, n0))
end function

function f_Create(c, n) bind(c, name='f_Create') result(r)
    use moordyn
    use fguard
    use, intrinsic :: iso_c_binding
    implicit none
    character(kind=c_char), intent(in) :: c(*)
    integer(c_int), value :: n
    type(c_ptr) :: r
    r = MD_Create(text(c, n))
end function

function f_constant(k) bind(c, name='f_constant') result(r)
    use moordyn
    use, intrinsic :: iso_c_binding
    implicit none
    integer(c_int), value :: k
    integer(c_int) :: r
    select case (k)
    case (0)
      r = MD_NO_OUTPUT
    case (1)
      r = MD_ERR_LEVEL
    case (2)
      r = MD_WRN_LEVEL
    case (3)
      r = MD_MSG_LEVEL
    case (4)
      r = MD_DBG_LEVEL
    case (5)
      r = MD_SUCESS
    case (6)
      r = MD_INVALID_INPUT_FILE
    case (7)
      r = MD_INVALID_OUTPUT_FILE
    case (8)
      r = MD_INVALID_INPUT
    case (9)
      r = MD_NAN_ERROR
    case (10)
      r = MD_MEM_ERROR
    case (11)
      r = MD_INVALID_VALUE
    case (12)
      r = MD_NON_IMPLEMENTED
    case (13)
      r = MD_UNHANDLED_ERROR
    case default
      r = -999
    end select
end function
