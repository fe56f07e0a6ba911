! Generated by tools/gen_fortran.py
module vf_bridge
  use iso_c_binding
  use umpire_mod
  implicit none
  type(UmpireResourceManager), save :: rm
  type(UmpireAllocator), save :: al(0:63)
contains
  function vf_open() bind(C, name="vf_open") result(rv)
    integer(C_INT) :: rv
    rm = rm%get_instance()
    rv = 0
    if (rm%associated()) rv = 1
  end function vf_open
  function vf_rm() bind(C, name="vf_rm") result(rv)
    type(C_PTR) :: rv
    rv = rm%cxxmem%addr
  end function vf_rm
  subroutine vf_by_name(s, b, n) bind(C, name="vf_by_name")
    integer(C_INT), value :: s
    integer(C_INT), value :: n
    character(kind=C_CHAR), intent(in) :: b(n)
    character(len=n) :: name
    integer :: i
    do i = 1, n
      name(i:i) = b(i)
    end do
    al(s) = rm%get_allocator(name)
  end subroutine vf_by_name
  subroutine vf_by_id(s, id) bind(C, name="vf_by_id")
    integer(C_INT), value :: s
    integer(C_INT), value :: id
    al(s) = rm%get_allocator(id)
  end subroutine vf_by_id
  subroutine vf_for_ptr(s, p) bind(C, name="vf_for_ptr")
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    al(s) = rm%get_allocator(p)
  end subroutine vf_for_ptr
  subroutine vf_make(s, k, b, n, par, x, y) bind(C, name="vf_make")
    integer(C_INT), value :: s
    integer(C_INT), value :: k, par
    integer(C_SIZE_T), value :: x, y
    integer(C_INT), value :: n
    character(kind=C_CHAR), intent(in) :: b(n)
    character(len=n) :: name
    integer :: i
    do i = 1, n
      name(i:i) = b(i)
    end do
    select case (k)
    case (0)
      al(s) = rm%make_allocator_quick_pool(name, al(par), x, y)
    case (1)
      al(s) = rm%make_allocator_list_pool(name, al(par), x, y)
    case (2)
      al(s) = rm%make_allocator_named(name, al(par))
    case (3)
      al(s) = rm%make_allocator_thread_safe(name, al(par))
    case default
      al(s) = rm%make_allocator_fixed_pool(name, al(par), x)
    end select
  end subroutine vf_make
  function vf_addr(s) bind(C, name="vf_addr") result(rv)
    integer(C_INT), value :: s
    type(C_PTR) :: rv
    rv = al(s)%get_instance()
  end function vf_addr
  function vf_dtor(s) bind(C, name="vf_dtor") result(rv)
    integer(C_INT), value :: s
    integer(C_INT) :: rv
    rv = al(s)%cxxmem%idtor
  end function vf_dtor
  subroutine vf_set_instance(s, p) bind(C, name="vf_set_instance")
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    call al(s)%set_instance(p)
  end subroutine vf_set_instance
  function vf_associated(s) bind(C, name="vf_associated") result(rv)
    integer(C_INT), value :: s
    integer(C_INT) :: rv
    rv = 0
    if (al(s)%associated()) rv = 1
  end function vf_associated
  subroutine vf_delete(s) bind(C, name="vf_delete")
    integer(C_INT), value :: s
    call al(s)%delete()
  end subroutine vf_delete
  subroutine vf_clear(s) bind(C, name="vf_clear")
    integer(C_INT), value :: s
    al(s)%cxxmem%addr = C_NULL_PTR
    al(s)%cxxmem%idtor = 0
  end subroutine vf_clear
  subroutine vf_own(s) bind(C, name="vf_own")
    integer(C_INT), value :: s
    al(s)%cxxmem%idtor = 1
  end subroutine vf_own
  function vf_eq(s, t) bind(C, name="vf_eq") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), value :: t
    integer(C_INT) :: rv
    rv = 0
    if (al(s) .eq. al(t)) rv = 1
  end function vf_eq
  function vf_ne(s, t) bind(C, name="vf_ne") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), value :: t
    integer(C_INT) :: rv
    rv = 0
    if (al(s) .ne. al(t)) rv = 1
  end function vf_ne
  function vf_rm_eq() bind(C, name="vf_rm_eq") result(rv)
    type(UmpireResourceManager) :: o
    integer(C_INT) :: rv
    o = rm%get_instance()
    rv = 0
    if ((rm .eq. o) .and. .not. (rm .ne. o)) rv = 1
  end function vf_rm_eq
  function vf_allocate(s, n) bind(C, name="vf_allocate") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T), value :: n
    type(C_PTR) :: rv
    rv = al(s)%allocate_pointer(n)
  end function vf_allocate
  subroutine vf_deallocate(s, p) bind(C, name="vf_deallocate")
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    call al(s)%deallocate_pointer(p)
  end subroutine vf_deallocate
  subroutine vf_rm_deallocate(p) bind(C, name="vf_rm_deallocate")
    type(C_PTR), value :: p
    call rm%deallocate(p)
  end subroutine vf_rm_deallocate
  subroutine vf_release(s) bind(C, name="vf_release")
    integer(C_INT), value :: s
    call al(s)%release()
  end subroutine vf_release
  function vf_size(s, p) bind(C, name="vf_size") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_size(p)
  end function vf_size
  function vf_rm_size(p) bind(C, name="vf_rm_size") result(rv)
    type(C_PTR), value :: p
    integer(C_SIZE_T) :: rv
    rv = rm%get_size(p)
  end function vf_rm_size
  function vf_high_watermark(s) bind(C, name="vf_high_watermark") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_high_watermark()
  end function vf_high_watermark
  function vf_current_size(s) bind(C, name="vf_current_size") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_current_size()
  end function vf_current_size
  function vf_actual_size(s) bind(C, name="vf_actual_size") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_actual_size()
  end function vf_actual_size
  function vf_allocation_count(s) bind(C, name="vf_allocation_count") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_allocation_count()
  end function vf_allocation_count
  function vf_id(s) bind(C, name="vf_id") result(rv)
    integer(C_INT), value :: s
    integer(C_SIZE_T) :: rv
    rv = al(s)%get_id()
  end function vf_id
  function vf_name(s, b, cap) bind(C, name="vf_name") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), value :: cap
    character(kind=C_CHAR), intent(out) :: b(cap)
    character(len=:), allocatable :: t
    integer :: i
    integer(C_INT) :: rv
    t = al(s)%get_name()
    rv = len(t)
    do i = 1, min(len(t), cap)
      b(i) = t(i:i)
    end do
  end function vf_name
  function vf_backtrace(p, b, cap) bind(C, name="vf_backtrace") result(rv)
    type(C_PTR), value :: p
    integer(C_INT), value :: cap
    character(kind=C_CHAR), intent(out) :: b(cap)
    character(len=:), allocatable :: t
    integer :: i
    integer(C_INT) :: rv
    t = get_backtrace(p)
    rv = len(t)
    do i = 1, min(len(t), cap)
      b(i) = t(i:i)
    end do
  end function vf_backtrace
  subroutine vf_add_alias(s, b, n) bind(C, name="vf_add_alias")
    integer(C_INT), value :: s
    integer(C_INT), value :: n
    character(kind=C_CHAR), intent(in) :: b(n)
    character(len=n) :: name
    integer :: i
    do i = 1, n
      name(i:i) = b(i)
    end do
    call rm%add_alias(name, al(s))
  end subroutine vf_add_alias
  subroutine vf_remove_alias(s, b, n) bind(C, name="vf_remove_alias")
    integer(C_INT), value :: s
    integer(C_INT), value :: n
    character(kind=C_CHAR), intent(in) :: b(n)
    character(len=n) :: name
    integer :: i
    do i = 1, n
      name(i:i) = b(i)
    end do
    call rm%remove_alias(name, al(s))
  end subroutine vf_remove_alias
  function vf_is_name(b, n) bind(C, name="vf_is_name") result(rv)
    integer(C_INT), value :: n
    character(kind=C_CHAR), intent(in) :: b(n)
    character(len=n) :: name
    integer :: i
    integer(C_INT) :: rv
    do i = 1, n
      name(i:i) = b(i)
    end do
    rv = 0
    if (rm%is_allocator(name)) rv = 1
  end function vf_is_name
  function vf_is_id(id) bind(C, name="vf_is_id") result(rv)
    integer(C_INT), value :: id
    integer(C_INT) :: rv
    rv = 0
    if (rm%is_allocator(id)) rv = 1
  end function vf_is_id
  function vf_has(p) bind(C, name="vf_has") result(rv)
    type(C_PTR), value :: p
    integer(C_INT) :: rv
    rv = 0
    if (rm%has_allocator(p)) rv = 1
  end function vf_has
  subroutine vf_copy(p, q) bind(C, name="vf_copy")
    type(C_PTR), value :: p, q
    call rm%copy(p, q)
  end subroutine vf_copy
  subroutine vf_copy_n(p, q, n) bind(C, name="vf_copy_n")
    type(C_PTR), value :: p, q
    integer(C_SIZE_T), value :: n
    call rm%copy(p, q, n)
  end subroutine vf_copy_n
  subroutine vf_memset(p, v) bind(C, name="vf_memset")
    type(C_PTR), value :: p
    integer(C_INT), value :: v
    call rm%memset(p, v)
  end subroutine vf_memset
  subroutine vf_memset_n(p, v, n) bind(C, name="vf_memset_n")
    type(C_PTR), value :: p
    integer(C_INT), value :: v
    integer(C_SIZE_T), value :: n
    call rm%memset(p, v, n)
  end subroutine vf_memset_n
  function vf_realloc(p, n) bind(C, name="vf_realloc") result(rv)
    type(C_PTR), value :: p
    integer(C_SIZE_T), value :: n
    type(C_PTR) :: rv
    rv = rm%reallocate(p, n)
  end function vf_realloc
  function vf_realloc_with(p, n, s) bind(C, name="vf_realloc_with") result(rv)
    type(C_PTR), value :: p
    integer(C_SIZE_T), value :: n
    integer(C_INT), value :: s
    type(C_PTR) :: rv
    rv = rm%reallocate(p, n, al(s))
  end function vf_realloc_with
  function vf_move(p, s) bind(C, name="vf_move") result(rv)
    type(C_PTR), value :: p
    integer(C_INT), value :: s
    type(C_PTR) :: rv
    rv = rm%move(p, al(s))
  end function vf_move
  subroutine vf_register(p, n, s) bind(C, name="vf_register")
    type(C_PTR), value :: p
    integer(C_SIZE_T), value :: n
    integer(C_INT), value :: s
    call rm%register_allocation(p, n, al(s))
  end subroutine vf_register
  subroutine vf_deregister(p) bind(C, name="vf_deregister")
    type(C_PTR), value :: p
    call rm%deregister_allocation(p)
  end subroutine vf_deregister
  function vf_overlaps(p, q) bind(C, name="vf_overlaps") result(rv)
    type(C_PTR), value :: p, q
    integer(C_INT) :: rv
    rv = 0
    if (pointer_overlaps(p, q)) rv = 1
  end function vf_overlaps
  function vf_contains(p, q) bind(C, name="vf_contains") result(rv)
    type(C_PTR), value :: p, q
    integer(C_INT) :: rv
    rv = 0
    if (pointer_contains(p, q)) rv = 1
  end function vf_contains
  function vf_version(k) bind(C, name="vf_version") result(rv)
    integer(C_INT), value :: k
    integer(C_INT) :: rv
    rv = get_major_version()
    if (k == 1) rv = get_minor_version()
    if (k == 2) rv = get_patch_version()
  end function vf_version
  function vf_usage() bind(C, name="vf_usage") result(rv)
    integer(C_SIZE_T) :: rv
    rv = get_process_memory_usage()
  end function vf_usage
  function vf_usage_hwm() bind(C, name="vf_usage_hwm") result(rv)
    integer(C_SIZE_T) :: rv
    rv = get_process_memory_usage_hwm()
  end function vf_usage_hwm
  function vf_device_usage(d) bind(C, name="vf_device_usage") result(rv)
    integer(C_INT), value :: d
    integer(C_SIZE_T) :: rv
    rv = get_device_memory_usage(d)
  end function vf_device_usage
  function vf_arr_int_1(s, d, p, e, lb) bind(C, name="vf_arr_int_1") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(1)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(1), lb(1)
    integer(C_INT), pointer :: a(:)
    integer(C_SIZE_T) :: n, i
    integer(C_INT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_int_1
  subroutine vf_fill_int_1(p, d, v) bind(C, name="vf_fill_int_1")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_INT), value :: v
    integer(C_INT), pointer :: a(:)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i1 = 1, d(1)
    a(i1) = c
    c = mod(c, 30000) + 1
    end do
  end subroutine vf_fill_int_1
  function vf_unarr_int_1(s, p, d) bind(C, name="vf_unarr_int_1") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_INT), pointer :: a(:)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_int_1
  function vf_arr_int_2(s, d, p, e, lb) bind(C, name="vf_arr_int_2") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(2)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(2), lb(2)
    integer(C_INT), pointer :: a(:, :)
    integer(C_SIZE_T) :: n, i
    integer(C_INT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_int_2
  subroutine vf_fill_int_2(p, d, v) bind(C, name="vf_fill_int_2")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_INT), value :: v
    integer(C_INT), pointer :: a(:, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2) = c
    c = mod(c, 30000) + 1
    end do
    end do
  end subroutine vf_fill_int_2
  function vf_unarr_int_2(s, p, d) bind(C, name="vf_unarr_int_2") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_INT), pointer :: a(:, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_int_2
  function vf_arr_int_3(s, d, p, e, lb) bind(C, name="vf_arr_int_3") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(3)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(3), lb(3)
    integer(C_INT), pointer :: a(:, :, :)
    integer(C_SIZE_T) :: n, i
    integer(C_INT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_int_3
  subroutine vf_fill_int_3(p, d, v) bind(C, name="vf_fill_int_3")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_INT), value :: v
    integer(C_INT), pointer :: a(:, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
  end subroutine vf_fill_int_3
  function vf_unarr_int_3(s, p, d) bind(C, name="vf_unarr_int_3") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_INT), pointer :: a(:, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_int_3
  function vf_arr_int_4(s, d, p, e, lb) bind(C, name="vf_arr_int_4") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(4)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(4), lb(4)
    integer(C_INT), pointer :: a(:, :, :, :)
    integer(C_SIZE_T) :: n, i
    integer(C_INT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_int_4
  subroutine vf_fill_int_4(p, d, v) bind(C, name="vf_fill_int_4")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_INT), value :: v
    integer(C_INT), pointer :: a(:, :, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i4 = 1, d(4)
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3, i4) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
    end do
  end subroutine vf_fill_int_4
  function vf_unarr_int_4(s, p, d) bind(C, name="vf_unarr_int_4") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_INT), pointer :: a(:, :, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_int_4
  function vf_arr_long_1(s, d, p, e, lb) bind(C, name="vf_arr_long_1") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(1)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(1), lb(1)
    integer(C_LONG), pointer :: a(:)
    integer(C_SIZE_T) :: n, i
    integer(C_LONG), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_long_1
  subroutine vf_fill_long_1(p, d, v) bind(C, name="vf_fill_long_1")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_INT), value :: v
    integer(C_LONG), pointer :: a(:)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i1 = 1, d(1)
    a(i1) = c
    c = mod(c, 30000) + 1
    end do
  end subroutine vf_fill_long_1
  function vf_unarr_long_1(s, p, d) bind(C, name="vf_unarr_long_1") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_LONG), pointer :: a(:)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_long_1
  function vf_arr_long_2(s, d, p, e, lb) bind(C, name="vf_arr_long_2") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(2)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(2), lb(2)
    integer(C_LONG), pointer :: a(:, :)
    integer(C_SIZE_T) :: n, i
    integer(C_LONG), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_long_2
  subroutine vf_fill_long_2(p, d, v) bind(C, name="vf_fill_long_2")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_INT), value :: v
    integer(C_LONG), pointer :: a(:, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2) = c
    c = mod(c, 30000) + 1
    end do
    end do
  end subroutine vf_fill_long_2
  function vf_unarr_long_2(s, p, d) bind(C, name="vf_unarr_long_2") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_LONG), pointer :: a(:, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_long_2
  function vf_arr_long_3(s, d, p, e, lb) bind(C, name="vf_arr_long_3") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(3)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(3), lb(3)
    integer(C_LONG), pointer :: a(:, :, :)
    integer(C_SIZE_T) :: n, i
    integer(C_LONG), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_long_3
  subroutine vf_fill_long_3(p, d, v) bind(C, name="vf_fill_long_3")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_INT), value :: v
    integer(C_LONG), pointer :: a(:, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
  end subroutine vf_fill_long_3
  function vf_unarr_long_3(s, p, d) bind(C, name="vf_unarr_long_3") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_LONG), pointer :: a(:, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_long_3
  function vf_arr_long_4(s, d, p, e, lb) bind(C, name="vf_arr_long_4") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(4)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(4), lb(4)
    integer(C_LONG), pointer :: a(:, :, :, :)
    integer(C_SIZE_T) :: n, i
    integer(C_LONG), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_long_4
  subroutine vf_fill_long_4(p, d, v) bind(C, name="vf_fill_long_4")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_INT), value :: v
    integer(C_LONG), pointer :: a(:, :, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i4 = 1, d(4)
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3, i4) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
    end do
  end subroutine vf_fill_long_4
  function vf_unarr_long_4(s, p, d) bind(C, name="vf_unarr_long_4") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_LONG), pointer :: a(:, :, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_long_4
  function vf_arr_float_1(s, d, p, e, lb) bind(C, name="vf_arr_float_1") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(1)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(1), lb(1)
    real(C_FLOAT), pointer :: a(:)
    integer(C_SIZE_T) :: n, i
    real(C_FLOAT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_float_1
  subroutine vf_fill_float_1(p, d, v) bind(C, name="vf_fill_float_1")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_INT), value :: v
    real(C_FLOAT), pointer :: a(:)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i1 = 1, d(1)
    a(i1) = c
    c = mod(c, 30000) + 1
    end do
  end subroutine vf_fill_float_1
  function vf_unarr_float_1(s, p, d) bind(C, name="vf_unarr_float_1") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    real(C_FLOAT), pointer :: a(:)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_float_1
  function vf_arr_float_2(s, d, p, e, lb) bind(C, name="vf_arr_float_2") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(2)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(2), lb(2)
    real(C_FLOAT), pointer :: a(:, :)
    integer(C_SIZE_T) :: n, i
    real(C_FLOAT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_float_2
  subroutine vf_fill_float_2(p, d, v) bind(C, name="vf_fill_float_2")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_INT), value :: v
    real(C_FLOAT), pointer :: a(:, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2) = c
    c = mod(c, 30000) + 1
    end do
    end do
  end subroutine vf_fill_float_2
  function vf_unarr_float_2(s, p, d) bind(C, name="vf_unarr_float_2") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    real(C_FLOAT), pointer :: a(:, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_float_2
  function vf_arr_float_3(s, d, p, e, lb) bind(C, name="vf_arr_float_3") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(3)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(3), lb(3)
    real(C_FLOAT), pointer :: a(:, :, :)
    integer(C_SIZE_T) :: n, i
    real(C_FLOAT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_float_3
  subroutine vf_fill_float_3(p, d, v) bind(C, name="vf_fill_float_3")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_INT), value :: v
    real(C_FLOAT), pointer :: a(:, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
  end subroutine vf_fill_float_3
  function vf_unarr_float_3(s, p, d) bind(C, name="vf_unarr_float_3") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    real(C_FLOAT), pointer :: a(:, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_float_3
  function vf_arr_float_4(s, d, p, e, lb) bind(C, name="vf_arr_float_4") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(4)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(4), lb(4)
    real(C_FLOAT), pointer :: a(:, :, :, :)
    integer(C_SIZE_T) :: n, i
    real(C_FLOAT), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_float_4
  subroutine vf_fill_float_4(p, d, v) bind(C, name="vf_fill_float_4")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_INT), value :: v
    real(C_FLOAT), pointer :: a(:, :, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i4 = 1, d(4)
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3, i4) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
    end do
  end subroutine vf_fill_float_4
  function vf_unarr_float_4(s, p, d) bind(C, name="vf_unarr_float_4") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    real(C_FLOAT), pointer :: a(:, :, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_float_4
  function vf_arr_double_1(s, d, p, e, lb) bind(C, name="vf_arr_double_1") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(1)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(1), lb(1)
    real(C_DOUBLE), pointer :: a(:)
    integer(C_SIZE_T) :: n, i
    real(C_DOUBLE), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_double_1
  subroutine vf_fill_double_1(p, d, v) bind(C, name="vf_fill_double_1")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    integer(C_INT), value :: v
    real(C_DOUBLE), pointer :: a(:)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i1 = 1, d(1)
    a(i1) = c
    c = mod(c, 30000) + 1
    end do
  end subroutine vf_fill_double_1
  function vf_unarr_double_1(s, p, d) bind(C, name="vf_unarr_double_1") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(1)
    real(C_DOUBLE), pointer :: a(:)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_double_1
  function vf_arr_double_2(s, d, p, e, lb) bind(C, name="vf_arr_double_2") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(2)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(2), lb(2)
    real(C_DOUBLE), pointer :: a(:, :)
    integer(C_SIZE_T) :: n, i
    real(C_DOUBLE), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_double_2
  subroutine vf_fill_double_2(p, d, v) bind(C, name="vf_fill_double_2")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    integer(C_INT), value :: v
    real(C_DOUBLE), pointer :: a(:, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2) = c
    c = mod(c, 30000) + 1
    end do
    end do
  end subroutine vf_fill_double_2
  function vf_unarr_double_2(s, p, d) bind(C, name="vf_unarr_double_2") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(2)
    real(C_DOUBLE), pointer :: a(:, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_double_2
  function vf_arr_double_3(s, d, p, e, lb) bind(C, name="vf_arr_double_3") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(3)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(3), lb(3)
    real(C_DOUBLE), pointer :: a(:, :, :)
    integer(C_SIZE_T) :: n, i
    real(C_DOUBLE), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_double_3
  subroutine vf_fill_double_3(p, d, v) bind(C, name="vf_fill_double_3")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    integer(C_INT), value :: v
    real(C_DOUBLE), pointer :: a(:, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
  end subroutine vf_fill_double_3
  function vf_unarr_double_3(s, p, d) bind(C, name="vf_unarr_double_3") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(3)
    real(C_DOUBLE), pointer :: a(:, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_double_3
  function vf_arr_double_4(s, d, p, e, lb) bind(C, name="vf_arr_double_4") result(rv)
    integer(C_INT), value :: s
    integer(C_INT), intent(in) :: d(4)
    type(C_PTR), intent(out) :: p
    integer(C_INT), intent(out) :: e(4), lb(4)
    real(C_DOUBLE), pointer :: a(:, :, :, :)
    integer(C_SIZE_T) :: n, i
    real(C_DOUBLE), pointer :: f(:)
    integer(C_INT) :: rv
    nullify(a)
    call al(s)%allocate(a, d)
    rv = 0
    if (.not. associated(a)) rv = 1
    if (.not. is_contiguous(a)) rv = 2
    p = c_loc(a)
    e = shape(a)
    lb = lbound(a)
  end function vf_arr_double_4
  subroutine vf_fill_double_4(p, d, v) bind(C, name="vf_fill_double_4")
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    integer(C_INT), value :: v
    real(C_DOUBLE), pointer :: a(:, :, :, :)
    integer :: i1, i2, i3, i4, c
    call c_f_pointer(p, a, d)
    c = v
    do i4 = 1, d(4)
    do i3 = 1, d(3)
    do i2 = 1, d(2)
    do i1 = 1, d(1)
    a(i1, i2, i3, i4) = c
    c = mod(c, 30000) + 1
    end do
    end do
    end do
    end do
  end subroutine vf_fill_double_4
  function vf_unarr_double_4(s, p, d) bind(C, name="vf_unarr_double_4") result(rv)
    integer(C_INT), value :: s
    type(C_PTR), value :: p
    integer(C_INT), intent(in) :: d(4)
    real(C_DOUBLE), pointer :: a(:, :, :, :)
    integer(C_INT) :: rv
    call c_f_pointer(p, a, d)
    call al(s)%deallocate(a)
    rv = 0
    if (associated(a)) rv = 1
  end function vf_unarr_double_4
end module vf_bridge
