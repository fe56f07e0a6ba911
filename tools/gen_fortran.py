#!/usr/bin/env python3
"""Writes harness/fbridge.f90: C entry points through which h_fort.cpp drives the Fortran module."""
import os
T = [("int", "integer(C_INT)"), ("long", "integer(C_LONG)"), ("float", "real(C_FLOAT)"), ("double", "real(C_DOUBLE)")]
out = ["! Generated by tools/gen_fortran.py", "module vf_bridge", "  use iso_c_binding", "  use umpire_mod", "  implicit none",
       "  type(UmpireResourceManager), save :: rm", "  type(UmpireAllocator), save :: al(0:63)", "contains"]


def sub(name, args, decl, body, result=None):
    k = "function" if result else "subroutine"
    out.append("  %s %s(%s) bind(C, name=\"%s\")%s" % (k, name, ", ".join(args), name, " result(rv)" if result else ""))
    for d in decl:
        out.append("    " + d)
    if result:
        out.append("    %s :: rv" % result)
    for b in body:
        out.append("    " + b)
    out.append("  end %s %s" % (k, name))


SL = "integer(C_INT), value :: s"
P = "type(C_PTR), value :: p"
SZ, INT, PTR = "integer(C_SIZE_T)", "integer(C_INT)", "type(C_PTR)"
NAME = ["integer(C_INT), value :: n", "character(kind=C_CHAR), intent(in) :: b(n)", "character(len=n) :: name", "integer :: i"]
NB = ["do i = 1, n", "  name(i:i) = b(i)", "end do"]


def logical(e):
    return ["rv = 0", "if (%s) rv = 1" % e]


sub("vf_open", [], [], ["rm = rm%get_instance()"] + logical("rm%associated()"), INT)
sub("vf_rm", [], [], ["rv = rm%cxxmem%addr"], PTR)
sub("vf_by_name", ["s", "b", "n"], [SL] + NAME, NB + ["al(s) = rm%get_allocator(name)"])
sub("vf_by_id", ["s", "id"], [SL, "integer(C_INT), value :: id"], ["al(s) = rm%get_allocator(id)"])
sub("vf_for_ptr", ["s", "p"], [SL, P], ["al(s) = rm%get_allocator(p)"])
sub("vf_make", ["s", "k", "b", "n", "par", "x", "y"], [SL, "integer(C_INT), value :: k, par", "integer(C_SIZE_T), value :: x, y"] + NAME, NB + [
    "select case (k)",
    "case (0)", "  al(s) = rm%make_allocator_quick_pool(name, al(par), x, y)",
    "case (1)", "  al(s) = rm%make_allocator_list_pool(name, al(par), x, y)",
    "case (2)", "  al(s) = rm%make_allocator_named(name, al(par))",
    "case (3)", "  al(s) = rm%make_allocator_thread_safe(name, al(par))",
    "case default", "  al(s) = rm%make_allocator_fixed_pool(name, al(par), x)",
    "end select"])
sub("vf_addr", ["s"], [SL], ["rv = al(s)%get_instance()"], PTR)
sub("vf_dtor", ["s"], [SL], ["rv = al(s)%cxxmem%idtor"], INT)
sub("vf_set_instance", ["s", "p"], [SL, P], ["call al(s)%set_instance(p)"])
sub("vf_associated", ["s"], [SL], logical("al(s)%associated()"), INT)
sub("vf_delete", ["s"], [SL], ["call al(s)%delete()"])
sub("vf_clear", ["s"], [SL], ["al(s)%cxxmem%addr = C_NULL_PTR", "al(s)%cxxmem%idtor = 0"])
sub("vf_own", ["s"], [SL], ["al(s)%cxxmem%idtor = 1"])
sub("vf_eq", ["s", "t"], [SL, "integer(C_INT), value :: t"], logical("al(s) .eq. al(t)"), INT)
sub("vf_ne", ["s", "t"], [SL, "integer(C_INT), value :: t"], logical("al(s) .ne. al(t)"), INT)
sub("vf_rm_eq", [], ["type(UmpireResourceManager) :: o"], ["o = rm%get_instance()"] + logical("(rm .eq. o) .and. .not. (rm .ne. o)"), INT)
sub("vf_allocate", ["s", "n"], [SL, "integer(C_SIZE_T), value :: n"], ["rv = al(s)%allocate_pointer(n)"], PTR)
sub("vf_deallocate", ["s", "p"], [SL, P], ["call al(s)%deallocate_pointer(p)"])
sub("vf_rm_deallocate", ["p"], [P], ["call rm%deallocate(p)"])
sub("vf_release", ["s"], [SL], ["call al(s)%release()"])
sub("vf_size", ["s", "p"], [SL, P], ["rv = al(s)%get_size(p)"], SZ)
sub("vf_rm_size", ["p"], [P], ["rv = rm%get_size(p)"], SZ)
for k in ("high_watermark", "current_size", "actual_size", "allocation_count", "id"):
    sub("vf_" + k, ["s"], [SL], ["rv = al(s)%get_" + k + "()"], SZ)
sub("vf_name", ["s", "b", "cap"], [SL, "integer(C_INT), value :: cap", "character(kind=C_CHAR), intent(out) :: b(cap)", "character(len=:), allocatable :: t", "integer :: i"],
    ["t = al(s)%get_name()", "rv = len(t)", "do i = 1, min(len(t), cap)", "  b(i) = t(i:i)", "end do"], INT)
sub("vf_backtrace", ["p", "b", "cap"], [P, "integer(C_INT), value :: cap", "character(kind=C_CHAR), intent(out) :: b(cap)", "character(len=:), allocatable :: t", "integer :: i"],
    ["t = get_backtrace(p)", "rv = len(t)", "do i = 1, min(len(t), cap)", "  b(i) = t(i:i)", "end do"], INT)
sub("vf_add_alias", ["s", "b", "n"], [SL] + NAME, NB + ["call rm%add_alias(name, al(s))"])
sub("vf_remove_alias", ["s", "b", "n"], [SL] + NAME, NB + ["call rm%remove_alias(name, al(s))"])
sub("vf_is_name", ["b", "n"], NAME, NB + logical("rm%is_allocator(name)"), INT)
sub("vf_is_id", ["id"], ["integer(C_INT), value :: id"], logical("rm%is_allocator(id)"), INT)
sub("vf_has", ["p"], [P], logical("rm%has_allocator(p)"), INT)
TWO = ["type(C_PTR), value :: p, q"]
sub("vf_copy", ["p", "q"], TWO, ["call rm%copy(p, q)"])
sub("vf_copy_n", ["p", "q", "n"], TWO + ["integer(C_SIZE_T), value :: n"], ["call rm%copy(p, q, n)"])
sub("vf_memset", ["p", "v"], [P, "integer(C_INT), value :: v"], ["call rm%memset(p, v)"])
sub("vf_memset_n", ["p", "v", "n"], [P, "integer(C_INT), value :: v", "integer(C_SIZE_T), value :: n"], ["call rm%memset(p, v, n)"])
sub("vf_realloc", ["p", "n"], [P, "integer(C_SIZE_T), value :: n"], ["rv = rm%reallocate(p, n)"], PTR)
sub("vf_realloc_with", ["p", "n", "s"], [P, "integer(C_SIZE_T), value :: n", SL], ["rv = rm%reallocate(p, n, al(s))"], PTR)
sub("vf_move", ["p", "s"], [P, SL], ["rv = rm%move(p, al(s))"], PTR)
sub("vf_register", ["p", "n", "s"], [P, "integer(C_SIZE_T), value :: n", SL], ["call rm%register_allocation(p, n, al(s))"])
sub("vf_deregister", ["p"], [P], ["call rm%deregister_allocation(p)"])
sub("vf_overlaps", ["p", "q"], TWO, logical("pointer_overlaps(p, q)"), INT)
sub("vf_contains", ["p", "q"], TWO, logical("pointer_contains(p, q)"), INT)
sub("vf_version", ["k"], ["integer(C_INT), value :: k"], ["rv = get_major_version()", "if (k == 1) rv = get_minor_version()", "if (k == 2) rv = get_patch_version()"], INT)
sub("vf_usage", [], [], ["rv = get_process_memory_usage()"], SZ)
sub("vf_usage_hwm", [], [], ["rv = get_process_memory_usage_hwm()"], SZ)
sub("vf_device_usage", ["d"], ["integer(C_INT), value :: d"], ["rv = get_device_memory_usage(d)"], SZ)

# typed arrays: allocate, number the elements in Fortran's order, tell where and how large the array is
for n, t in T:
    for r in (1, 2, 3, 4):
        sh = ", ".join([":"] * r)
        nm = "%s_%d" % (n, r)
        sub("vf_arr_" + nm, ["s", "d", "p", "e", "lb"], [SL, "integer(C_INT), intent(in) :: d(%d)" % r, "type(C_PTR), intent(out) :: p", "integer(C_INT), intent(out) :: e(%d), lb(%d)" % (r, r),
            "%s, pointer :: a(%s)" % (t, sh), "integer(C_SIZE_T) :: n, i", "%s, pointer :: f(:)" % t],
            ["nullify(a)", "call al(s)%allocate(a, d)", "rv = 0", "if (.not. associated(a)) rv = 1", "if (.not. is_contiguous(a)) rv = 2", "p = c_loc(a)", "e = shape(a)", "lb = lbound(a)"], INT)
        sub("vf_fill_" + nm, ["p", "d", "v"], [P, "integer(C_INT), intent(in) :: d(%d)" % r, "integer(C_INT), value :: v", "%s, pointer :: a(%s)" % (t, sh), "integer :: i1, i2, i3, i4, c"],
            ["call c_f_pointer(p, a, d)", "c = v"] + ["do i%d = 1, d(%d)" % (k, k) for k in range(r, 0, -1)] + ["a(%s) = c" % ", ".join("i%d" % k for k in range(1, r + 1)), "c = mod(c, 30000) + 1"] + ["end do"] * r)
        sub("vf_unarr_" + nm, ["s", "p", "d"], [SL, P, "integer(C_INT), intent(in) :: d(%d)" % r, "%s, pointer :: a(%s)" % (t, sh)],
            ["call c_f_pointer(p, a, d)", "call al(s)%deallocate(a)"] + logical("associated(a)"), INT)
out.append("end module vf_bridge")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, "harness", "fbridge.f90"), "w").write("\n".join(out) + "\n")
