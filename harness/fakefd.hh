// One file in memory behind one descriptor. Everything else goes to the system when replayed natively.
#pragma once
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
static const int FD = 77;
#ifdef __SYMX__
#define OTHERS( cond, call )
#else
#include <sys/syscall.h>
#define OTHERS( cond, call ) if ( cond ) return call;
#endif
static uint8_t * disk; static size_t disk_size, disk_room, read_at; static int open_count, close_count, maps;
extern "C" ssize_t write( int fd, const void * p, size_t n )
{
  OTHERS( fd != FD, syscall( SYS_write, fd, p, n ) )
  sym_assert( fd == FD, "write to the wrong descriptor" );
  if ( n > disk_room - disk_size ) { errno = ENOSPC; return -1; }
  memcpy( disk + disk_size, p, n ); disk_size += n; return n;
}
extern "C" ssize_t read( int fd, void * p, size_t n )
{
  OTHERS( fd != FD, syscall( SYS_read, fd, p, n ) )
  sym_assert( fd == FD, "read from the wrong descriptor" );
  const size_t k = n < disk_size - read_at ? n : disk_size - read_at; memcpy( p, disk + read_at, k ); read_at += k; return k;
}
extern "C" int close( int fd ) { OTHERS( fd != FD, syscall( SYS_close, fd ) ) sym_assert( fd == FD, "closed the wrong descriptor" ); close_count++; return 0; }
extern "C" int open( const char * name, int flags, ... )
{
  va_list ap; va_start( ap, flags ); const int mode = va_arg( ap, int ); va_end( ap ); (void) mode;
  OTHERS( name[ 0 ] != '@', syscall( SYS_open, name, flags, mode ) )
  if ( flags & O_TRUNC ) disk_size = 0; read_at = 0; open_count++; return FD;
}
extern "C" int fstat( int fd, struct stat * st ) noexcept { OTHERS( fd != FD, syscall( SYS_fstat, fd, st ) ) memset( st, 0, sizeof( *st ) ); st->st_size = disk_size; return 0; }
extern "C" void * mmap( void * a, size_t n, int prot, int flags, int fd, off_t o ) noexcept
{
  OTHERS( fd != FD, (void *) syscall( SYS_mmap, a, n, prot, flags, fd, o ) )
  if ( n == 0 ) { errno = EINVAL; return MAP_FAILED; }
  sym_assert( o == 0 and n <= disk_size and ( flags & MAP_SHARED ), "maps the file itself" ); maps++; return disk;
}
extern "C" int munmap( void * a, size_t n ) noexcept { OTHERS( a != disk, syscall( SYS_munmap, a, n ) ) maps--; return 0; }
